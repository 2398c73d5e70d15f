// ================================================================ splitter.rs / node.rs / histogram.rs : what a split is made of
/*@type constraints.rs :: ConstraintMap */
/*@struct histogram.rs :: Bin */
/*@struct histogram.rs :: HistogramMatrix */
/*@struct splitter.rs :: SplitInfo */
/*@struct splitter.rs :: NodeInfo */
/*@enum splitter.rs :: MissingInfo */
/*@struct node.rs :: SplittableNode */
// ---- values of the structures, as real numbers
/// one side of a split: gradient, hessian, weight and gain (minus infinity: excluded)
pub ghost struct Side { pub g: real, pub h: real, pub w: real, pub gain: Ext }
pub ghost enum Miss { Left, Right, Leaf(Side), Branch(Side) }
/// an evaluated split: left, right, missing
pub ghost struct Ev { pub l: Side, pub r: Side, pub m: Miss }
/// regularisation and inherited bounds
pub ghost struct Par { pub l1: real, pub l2: real, pub step: real, pub lo: Ext, pub hi: Ext }
pub open spec fn par_ok(p: Par) -> bool {
    p.l1 >= 0real && p.l2 >= 0real && p.step >= 0real && bounds_ok(p.lo, p.hi)
}
pub open spec fn bounds_ok(lo: Ext, hi: Ext) -> bool { ext_le(lo, hi) && !(lo is PInf) && !(hi is NInf) }
pub open spec fn within(lo: Ext, w: real, hi: Ext) -> bool { ext_le(lo, Ext::Fin(w)) && ext_le(Ext::Fin(w), hi) }
/// the weight of a side: the optimum, limited to the inherited bounds
pub open spec fn cw(p: Par, g: real, h: real) -> real { clamp(opt_weight(p.l1, p.l2, p.step, g, h), p.lo, p.hi)->Fin_0 }
pub open spec fn side(p: Par, g: real, h: real) -> Side {
    Side { g: g, h: h, w: cw(p, g, h), gain: Ext::Fin(gain_w(p.l2, g, h, cw(p, g, h))) }
}
pub open spec fn side_w(p: Par, g: real, h: real, w: real) -> Side {
    Side { g: g, h: h, w: w, gain: Ext::Fin(gain_w(p.l2, g, h, w)) }
}
/// 1: increasing, -1: decreasing, 0: free
pub open spec fn dir(c: Option<&Constraint>) -> int {
    match c { Some(x) => match *x { Constraint::Positive => 1, Constraint::Negative => -1, Constraint::Unconstrained => 0 }, None => 0 }
}
/// the order of the two weights contradicts the constraint
pub open spec fn breaks(d: int, l: real, r: real) -> bool { (d == 1 && l >= r) || (d == -1 && l <= r) }
pub open spec fn cull(gain: Ext, d: int, l: real, r: real) -> Ext { if breaks(d, l, r) { Ext::NInf } else { gain } }
pub open spec fn ni_is(n: NodeInfo, s: Side) -> bool {
    n.grad.e() == Ext::Fin(s.g) && n.cover.e() == Ext::Fin(s.h) && n.weight.e() == Ext::Fin(s.w) && n.gain.e() == s.gain
}
pub open spec fn ni_bounds(n: NodeInfo, lo: Ext, hi: Ext) -> bool { n.bounds.0.e() == lo && n.bounds.1.e() == hi }
pub open spec fn mi_is(m: MissingInfo, s: Miss, lo: Ext, hi: Ext) -> bool {
    match m {
        MissingInfo::Left => s is Left,
        MissingInfo::Right => s is Right,
        MissingInfo::Leaf(n) => s is Leaf && ni_is(n, s->Leaf_0) && ni_bounds(n, lo, hi),
        MissingInfo::Branch(n) => s is Branch && ni_is(n, s->Branch_0) && ni_bounds(n, lo, hi),
    }
}
pub open spec fn ev_is(r: Option<(NodeInfo, NodeInfo, MissingInfo)>, e: Option<Ev>, lo: Ext, hi: Ext) -> bool {
    match r {
        None => e is None,
        Some(x) => e is Some && ni_is(x.0, e->0.l) && ni_is(x.1, e->0.r) && mi_is(x.2, e->0.m, lo, hi),
    }
}
pub open spec fn miss_gain(m: Miss) -> Ext {
    match m { Miss::Leaf(s) => s.gain, Miss::Branch(s) => s.gain, _ => Ext::Fin(0real) }
}
/// gain of the children over their parent, less gamma
pub open spec fn ev_gain(e: Ev, parent: Ext, gamma: real) -> Ext {
    ext_sub(ext_sub(ext_add(ext_add(e.l.gain, e.r.gain), miss_gain(e.m)), parent), Ext::Fin(gamma))
}
// ---- histograms
pub open spec fn pg(h: Seq<Bin<F32>>, i: int) -> real decreases i { if i <= 0 { 0real } else { pg(h, i - 1) + h[i].gradient_sum.v() } }
pub open spec fn ph(h: Seq<Bin<F32>>, i: int) -> real decreases i { if i <= 0 { 0real } else { ph(h, i - 1) + h[i].hessian_sum.v() } }
/// finite sums, no negative hessian, at most as many bins as fit the bin type, totals equal to those of the node
pub open spec fn hist_ok(h: Seq<Bin<F32>>, g: real, hs: real) -> bool {
    &&& 1 <= h.len() <= 65535
    &&& forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).gradient_sum.fin() && h[i].hessian_sum.fin() && h[i].hessian_sum.v() >= 0real
    &&& hs == h[0].hessian_sum.v() + ph(h, h.len() - 1)
    &&& g == h[0].gradient_sum.v() + pg(h, h.len() - 1)
}
pub proof fn lemma_ph(h: Seq<Bin<F32>>, g: real, hs: real, i: int, j: int)
    requires hist_ok(h, g, hs), 0 <= i <= j < h.len(),
    ensures 0real <= ph(h, i) <= ph(h, j),
    decreases j
{
    if i < j { lemma_ph(h, g, hs, i, j - 1); assert(h[j].hessian_sum.v() >= 0real); }
    else if i > 0 { lemma_ph(h, g, hs, i - 1, i - 1); assert(h[i].hessian_sum.v() >= 0real); }
}
pub open spec fn n_ok(n: SplittableNode) -> bool {
    &&& n.weight_value.fin() && n.gain_value.fin() && n.gradient_sum.fin() && n.hessian_sum.fin()
    &&& bounds_ok(n.lower_bound.e(), n.upper_bound.e())
    &&& within(n.lower_bound.e(), n.weight_value.v(), n.upper_bound.e())
}
pub proof fn lemma_cw(p: Par, g: real, h: real)
    requires bounds_ok(p.lo, p.hi),
    ensures
        clamp(opt_weight(p.l1, p.l2, p.step, g, h), p.lo, p.hi) == Ext::Fin(cw(p, g, h)),
        within(p.lo, cw(p, g, h), p.hi),
{}
impl SplittableNode {
/*@fn node.rs :: SplittableNode :: get_split_gain
lit f32
ret r
spec:
    ensures
        r.e() == ext_sub(ext_sub(ext_add(ext_add(left_node_info.gain.e(), right_node_info.gain.e()),
            match *missing_node_info { MissingInfo::Branch(n) => n.gain.e(), MissingInfo::Leaf(n) => n.gain.e(), _ => Ext::Fin(0real) }),
            self.gain_value.e()), gamma.e()),
start:
    broadcast use ideal_arith;
*/
}
