// ================================================================ utils.rs : weights and gains (real-number contracts)
/*@enum constraints.rs :: Constraint */
/// soft threshold by the L1 penalty
pub open spec fn shrink(g: real, l1: real) -> real { if g > l1 { g - l1 } else if g < 0real - l1 { g + l1 } else { 0real } }
/// limit the magnitude (zero: no limit)
pub open spec fn step_limit(w: real, m: real) -> real {
    if m == 0real { w } else if w > m { m } else if w < 0real - m { 0real - m } else { w }
}
#[verifier::opaque]
pub open spec fn opt_weight(l1: real, l2: real, m: real, g: real, h: real) -> real {
    step_limit(0real - shrink(g, l1) / (h + l2), m)
}
/// limit to the inherited bounds
pub open spec fn clamp(w: real, lo: Ext, hi: Ext) -> Ext {
    if ext_lt(hi, Ext::Fin(w)) { hi } else if ext_lt(Ext::Fin(w), lo) { lo } else { Ext::Fin(w) }
}
pub open spec fn reg_ok(l1: F32, l2: F32, m: F32) -> bool {
    l1.fin() && l2.fin() && m.fin() && l1.v() >= 0real && l2.v() >= 0real && m.v() >= 0real
}
/// minus the regularised objective of a leaf with weight w, doubled: the gain
#[verifier::opaque]
pub open spec fn gain_w(l2: real, g: real, h: real, w: real) -> real { 0real - (2real * g * w + (h + l2) * (w * w)) }
/*@fn utils.rs :: l1_regularization
lit f32
ret r
spec:
    requires w.fin(), l1.fin(), l1.v() >= 0real,
    ensures r.fin(), r.v() == shrink(w.v(), l1.v()),
start:
    broadcast use ideal_arith;
*/
/*@fn utils.rs :: weight
lit f32
ret r
spec:
    requires reg_ok(*l1, *l2, *max_delta_step), gradient_sum.fin(), hessian_sum.fin(), hessian_sum.v() + l2.v() != 0real,
    ensures r.fin(), r.v() == opt_weight(l1.v(), l2.v(), max_delta_step.v(), gradient_sum.v(), hessian_sum.v()),
start:
    broadcast use ideal_arith;
    reveal(opt_weight);
*/
/*@fn utils.rs :: constrained_weight
lit f32
ret r
spec:
    requires reg_ok(*l1, *l2, *max_delta_step), gradient_sum.fin(), hessian_sum.fin(), hessian_sum.v() + l2.v() != 0real,
        ext_le(lower_bound.e(), upper_bound.e()),
    ensures
        r.e() == clamp(opt_weight(l1.v(), l2.v(), max_delta_step.v(), gradient_sum.v(), hessian_sum.v()), lower_bound.e(), upper_bound.e()),
        ext_le(lower_bound.e(), r.e()) && ext_le(r.e(), upper_bound.e()),
start:
    broadcast use ideal_arith;
*/
/*@fn utils.rs :: gain
lit f32
ret r
spec:
    requires l2.fin(), gradient_sum.fin(), hessian_sum.fin(), hessian_sum.v() + l2.v() != 0real,
    ensures r.fin(), r.v() == gradient_sum.v() * gradient_sum.v() / (hessian_sum.v() + l2.v()),
start:
    broadcast use ideal_arith;
*/
/*@fn utils.rs :: gain_given_weight
lit f32
ret r
spec:
    ensures
        l2.fin() && gradient_sum.fin() && hessian_sum.fin() && weight.fin() ==>
            r.fin() && r.v() == gain_w(l2.v(), gradient_sum.v(), hessian_sum.v(), weight.v()),
start:
    broadcast use ideal_arith;
    reveal(gain_w);
*/
/*@fn utils.rs :: cull_gain
lit f32
ret r
spec:
    ensures
        r == gain || r.e() == Ext::NInf,
        (constraint is None || constraint == Some(&Constraint::Unconstrained)) ==> r == gain,
        constraint == Some(&Constraint::Positive) ==> if ext_le(right_weight.e(), left_weight.e()) { r.e() == Ext::NInf } else { r == gain },
        constraint == Some(&Constraint::Negative) ==> if ext_le(left_weight.e(), right_weight.e()) { r.e() == Ext::NInf } else { r == gain },
*/
/*@fn utils.rs :: between
lit f32
ret r
spec:
    ensures r <==> (ext_le(i.e(), v.e()) && ext_le(v.e(), j.e())) || (ext_le(j.e(), v.e()) && ext_le(v.e(), i.e())),
*/
/// the child nearest to a parent outside of their range moves to the parent
pub open spec fn btp(p: Ext, l: Ext, r: Ext) -> (Ext, Ext) {
    if (ext_le(l, p) && ext_le(p, r)) || (ext_le(r, p) && ext_le(p, l)) { (l, r) }
    else if ext_lt(r, l) { if ext_lt(l, p) { (p, r) } else { (l, p) } }
    else if ext_lt(r, p) { (l, p) } else { (p, r) }
}
/*@fn utils.rs :: bound_to_parent
lit f32
ret r
spec:
    requires !parent_weight.nan(), !left_weight.nan(), !right_weight.nan(),
    ensures
        // the parent lies between the children
        (ext_le(r.0.e(), parent_weight.e()) && ext_le(parent_weight.e(), r.1.e())) || (ext_le(r.1.e(), parent_weight.e()) && ext_le(parent_weight.e(), r.0.e())),
        // children that already bracket the parent are left alone
        (ext_le(left_weight.e(), parent_weight.e()) && ext_le(parent_weight.e(), right_weight.e())) || (ext_le(right_weight.e(), parent_weight.e()) && ext_le(parent_weight.e(), left_weight.e()))
            ==> r.0 == left_weight && r.1 == right_weight,
        (r.0.e(), r.1.e()) == btp(parent_weight.e(), left_weight.e(), right_weight.e()),
        // only the child nearest to the parent moves, and it moves to the parent
        (r.0 == left_weight && (r.1 == right_weight || r.1 == parent_weight)) || (r.0 == parent_weight && r.1 == right_weight),
        // the order of the children is kept
        ext_lt(left_weight.e(), right_weight.e()) ==> ext_le(r.0.e(), r.1.e()),
        ext_lt(right_weight.e(), left_weight.e()) ==> ext_le(r.1.e(), r.0.e()),
*/
