// ================================================================ objective.rs
pub trait VxUnzip2<A, B>: Sized { fn vx_unzip2(self) -> (r: (Vec<A>, Vec<B>)); }
impl<A, B> VxUnzip2<A, B> for Vec<(A, B)> {
    #[verifier::external_body]
    fn vx_unzip2(self) -> (r: (Vec<A>, Vec<B>))
        ensures r.0@.len() == self@.len(), r.1@.len() == self@.len(),
            forall|i: int| #![trigger self@[i]] #![trigger r.0@[i]] #![trigger r.1@[i]] 0 <= i < self@.len() ==> r.0@[i] == self@[i].0 && r.1@[i] == self@[i].1,
    { unimplemented!() }
}
/// the probability of a raw score
pub open spec fn sigmoid(x: real) -> real { rdiv(1real, 1real + rexp(0real - x)) }
/// w times the first / second derivative of  -(y ln p + (1 - y) ln(1 - p)),  p = sigmoid(x), with respect to x
pub open spec fn ll_grad(y: real, x: real, w: real) -> real { rmul(sigmoid(x) - y, w) }
pub open spec fn ll_hess(y: real, x: real, w: real) -> real { rmul(rmul(sigmoid(x), 1real - sigmoid(x)), w) }
/// w times the first / second derivative of  (x - y)^2 / 2
pub open spec fn sl_grad(y: real, x: real, w: real) -> real { rmul(x - y, w) }
pub open spec fn sl_hess(y: real, x: real, w: real) -> real { w }
pub open spec fn fin_rows(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>) -> bool {
    y.len() == x.len() && y.len() == w.len() && (forall|i: int| 0 <= i < y.len() ==> (#[trigger] y[i]).fin() && x[i].fin() && w[i].fin())
}
/// sum of w y and of w over the first n rows
pub open spec fn wy(y: Seq<F64>, w: Seq<F64>, n: int) -> real decreases n { if n <= 0 { 0real } else { wy(y, w, n - 1) + rmul(w[n - 1].v(), y[n - 1].v()) } }
pub open spec fn ww(w: Seq<F64>, n: int) -> real decreases n { if n <= 0 { 0real } else { ww(w, n - 1) + w[n - 1].v() } }
/*@struct objective.rs :: LogLoss */
/*@struct objective.rs :: SquaredLoss */
impl LogLoss {
/*@fn objective.rs :: ObjectiveFunction for LogLoss :: calc_grad_hess
std unzip=collect::<Vec<(F32,F32)>>().vx_unzip2
ret r
spec:
    requires fin_rows(y@, yhat@, sample_weight@),
    ensures
        r.0@.len() == y@.len(), r.1@.len() == y@.len(),
        forall|i: int| 0 <= i < y@.len() ==> (#[trigger] r.0@[i]).e() == Ext::Fin(ll_grad(y@[i].v(), yhat@[i].v(), sample_weight@[i].v())),
        forall|i: int| 0 <= i < y@.len() ==> (#[trigger] r.1@[i]).e() == Ext::Fin(ll_hess(y@[i].v(), yhat@[i].v(), sample_weight@[i].v())),
closure 1:
    |p__: ((&F64, &F64), &F64)| -> (o: (F32, F32))
    requires p__.0.0.fin(), p__.0.1.fin(), p__.1.fin(),
    ensures o.0.e() == Ext::Fin(ll_grad(p__.0.0.v(), p__.0.1.v(), p__.1.v())), o.1.e() == Ext::Fin(ll_hess(p__.0.0.v(), p__.0.1.v(), p__.1.v())),
before "let yhat_ =":
    broadcast use opaque_arith;
*/
/*@fn objective.rs :: ObjectiveFunction for LogLoss :: calc_init
ret r
spec:
    requires y@.len() == sample_weight@.len(), all_fin64(y@), all_fin64(sample_weight@),
        wy(y@, sample_weight@, y@.len() as int) > 0real, wy(y@, sample_weight@, y@.len() as int) < ww(sample_weight@, y@.len() as int),
    ensures
        r.e() == Ext::Fin(rln(rdiv(wy(y@, sample_weight@, y@.len() as int), ww(sample_weight@, y@.len() as int) - wy(y@, sample_weight@, y@.len() as int)))),
        // a constant score of r predicts the weighted mean label: the gradients sum to zero
        ww(sample_weight@, y@.len() as int) * sigmoid(r.v()) == wy(y@, sample_weight@, y@.len() as int),
start:
    broadcast use opaque_arith;
loop 1:
    invariant y@.len() == sample_weight@.len(), all_fin64(y@), all_fin64(sample_weight@),
        ytot.e() == Ext::Fin(wy(y@, sample_weight@, i as int)), ntot.e() == Ext::Fin(ww(sample_weight@, i as int)),
loop 1 start:
    broadcast use opaque_arith;
tail:
    proof { lemma_odds(ytot.v(), ntot.v()); }
*/
}
impl SquaredLoss {
/*@fn objective.rs :: ObjectiveFunction for SquaredLoss :: calc_grad_hess
std unzip=collect::<Vec<(F32,F32)>>().vx_unzip2
ret r
spec:
    requires fin_rows(y@, yhat@, sample_weight@),
    ensures
        r.0@.len() == y@.len(), r.1@.len() == y@.len(),
        forall|i: int| 0 <= i < y@.len() ==> (#[trigger] r.0@[i]).e() == Ext::Fin(sl_grad(y@[i].v(), yhat@[i].v(), sample_weight@[i].v())),
        forall|i: int| 0 <= i < y@.len() ==> (#[trigger] r.1@[i]).e() == Ext::Fin(sl_hess(y@[i].v(), yhat@[i].v(), sample_weight@[i].v())),
start:
    broadcast use opaque_arith;
closure 1:
    |p__: ((&F64, &F64), &F64)| -> (o: (F32, F32))
    requires p__.0.0.fin(), p__.0.1.fin(), p__.1.fin(),
    ensures o.0.e() == Ext::Fin(sl_grad(p__.0.0.v(), p__.0.1.v(), p__.1.v())), o.1.e() == Ext::Fin(sl_hess(p__.0.0.v(), p__.0.1.v(), p__.1.v())),
*/
/*@fn objective.rs :: ObjectiveFunction for SquaredLoss :: calc_init
ret r
spec:
    requires y@.len() == sample_weight@.len(), all_fin64(y@), all_fin64(sample_weight@), ww(sample_weight@, y@.len() as int) > 0real,
    ensures
        r.e() == Ext::Fin(rdiv(wy(y@, sample_weight@, y@.len() as int), ww(sample_weight@, y@.len() as int))),
        // the gradients at this score sum to zero
        ww(sample_weight@, y@.len() as int) * r.v() == wy(y@, sample_weight@, y@.len() as int),
start:
    broadcast use opaque_arith;
loop 1:
    invariant y@.len() == sample_weight@.len(), all_fin64(y@), all_fin64(sample_weight@),
        ytot.e() == Ext::Fin(wy(y@, sample_weight@, i as int)), ntot.e() == Ext::Fin(ww(sample_weight@, i as int)),
loop 1 start:
    broadcast use opaque_arith;
tail:
    proof { lemma_ratio(ytot.v(), ntot.v()); }
*/
}
proof fn lemma_ratio(a: real, b: real) requires b != 0real ensures b * rdiv(a, b) == a { reveal(rdiv); assert(b * (a / b) == a) by (nonlinear_arith) requires b != 0real; }
proof fn lemma_odds(a: real, n: real)
    requires 0real < a < n,
    ensures rdiv(a, n - a) > 0real, rexp(rln(rdiv(a, n - a))) == rdiv(a, n - a) ==> n * sigmoid(rln(rdiv(a, n - a))) == a,
{
    reveal(rdiv);
    let d = n - a;
    let q = a / d;
    assert(q > 0real) by (nonlinear_arith) requires q == a / d, a > 0real, d > 0real;
    assert(q * d == a) by (nonlinear_arith) requires q == a / d, d > 0real;
    let x = rln(q);
    ideal::exp_neg(x);
    let m = rexp(0real - x);
    if rexp(x) == q {
        assert(m * a == d) by (nonlinear_arith) requires q * m == 1real, q * d == a;
        assert(m > 0real) by (nonlinear_arith) requires q * m == 1real, q > 0real;
        let s = 1real / (1real + m);
        assert(s * (1real + m) == 1real) by (nonlinear_arith) requires s == 1real / (1real + m), m > 0real;
        assert(n * s == a) by (nonlinear_arith) requires s * (1real + m) == 1real, m * a == d, d == n - a;
    }
}
