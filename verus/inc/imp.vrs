/*@struct splitter.rs :: MissingImputerSplitter */
pub type Spl = MissingImputerSplitter;
pub open spec fn s_ok(s: Spl) -> bool {
    &&& reg_ok(s.l1, s.l2, s.max_delta_step) && s.l2.v() > 0real
    &&& s.gamma.fin() && s.min_leaf_weight.fin()
}
/// imputing splitter: the evaluated candidate, or none
#[verifier::opaque]
pub open spec fn spl_ev(s: Spl, p: Par, lg: real, lh: real, rg: real, rh: real, mg: real, mh: real, pw: real, d: int) -> Option<Ev> {
    let mlw = s.min_leaf_weight.v();
    let has_missing = mg != 0real || mh != 0real;
    let l = side(p, lg, lh);
    let r = side(p, rg, rh);
    // missing joins the left, or the right, side
    let ml = side(p, lg + mg, lh + mh);
    let mr = side(p, rg + mg, rh + mh);
    let mlgain = cull(ml.gain, d, ml.w, r.w);
    let mrgain = cull(mr.gain, d, l.w, mr.w);
    let left = has_missing && ext_lt(ext_sub(mrgain, r.gain), ext_sub(mlgain, l.gain));
    let e = if left { Ev { l: Side { gain: mlgain, ..ml }, r: r, m: Miss::Left } }
        else if has_missing { Ev { l: l, r: Side { gain: mrgain, ..mr }, m: Miss::Right } }
        else { Ev { l: l, r: r, m: Miss::Right } };
    if !s.allow_missing_splits && ((lg == 0real && lh == 0real) || (rg == 0real && rh == 0real)) { None }
    else if !s.allow_missing_splits && (lh < mlw || rh < mlw) { None }
    else if e.l.h < mlw || e.r.h < mlw { None }
    else { Some(e) }
}
pub proof fn lemma_spl_ev(s: Spl, p: Par, lg: real, lh: real, rg: real, rh: real, mg: real, mh: real, pw: real, d: int)
    ensures match spl_ev(s, p, lg, lh, rg, rh, mg, mh, pw, d) { None => true, Some(e) => !(e.l.gain is NaN) && !(e.l.gain is PInf) && !(e.r.gain is NaN) && !(e.r.gain is PInf) && miss_gain(e.m) is Fin },
{ reveal(spl_ev); }
impl MissingImputerSplitter {
/*@fn splitter.rs :: Splitter for MissingImputerSplitter :: get_constraint
ret r
spec:
    ensures dir(r) == s_dir(*self, *feature),
start:
    broadcast use vstd::std_specs::hash::group_hash_axioms;
*/
/*@fn splitter.rs :: Splitter for MissingImputerSplitter :: get_gamma
ret r
spec:
    ensures r == self.gamma,
*/
/*@fn splitter.rs :: Splitter for MissingImputerSplitter :: evaluate_split
lit f32
ret r
spec:
    requires
        s_ok(*self), bounds_ok(lower_bound.e(), upper_bound.e()),
        left_gradient.fin(), left_hessian.fin(), right_gradient.fin(), right_hessian.fin(), missing_gradient.fin(), missing_hessian.fin(),
        left_hessian.v() >= 0real, right_hessian.v() >= 0real, missing_hessian.v() >= 0real,
    ensures
        ev_is(r, spl_ev(*self, Par { l1: self.l1.v(), l2: self.l2.v(), step: self.max_delta_step.v(), lo: lower_bound.e(), hi: upper_bound.e() },
            left_gradient.v(), left_hessian.v(), right_gradient.v(), right_hessian.v(), missing_gradient.v(), missing_hessian.v(), _parent_weight.v(), dir(constraint)), lower_bound.e(), upper_bound.e()),
start:
    broadcast use ideal_arith;
    reveal(spl_ev);
*/
}
