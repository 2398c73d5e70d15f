// ================================================================ metric.rs
pub uninterp spec fn rln1p(x: real) -> real;
pub uninterp spec fn rsqrt(x: real) -> real;
pub trait VxMath: Sized { fn vx_ln_1p(&self) -> (r: F64); fn vx_powi(self, n: i32) -> (r: F64); fn vx_sqrt(self) -> (r: F64); }
impl VxMath for F64 {
    #[verifier::external_body]
    fn vx_ln_1p(&self) -> (r: F64) ensures self.fin() && self.v() > 0real - 1real ==> r.e() == Ext::Fin(rln1p(self.v())) { unimplemented!() }
    #[verifier::external_body]
    fn vx_powi(self, n: i32) -> (r: F64) ensures self.fin() && n == 2 ==> r.e() == Ext::Fin(rmul(self.v(), self.v())) { unimplemented!() }
    #[verifier::external_body]
    fn vx_sqrt(self) -> (r: F64) ensures self.fin() && self.v() >= 0real ==> r.e() == Ext::Fin(rsqrt(self.v())) { unimplemented!() }
}
/// weighted mean of the per-row values l
pub open spec fn wmean(l: Seq<real>, w: Seq<real>) -> real { rdiv(rsum(Seq::new(l.len(), |i: int| rmul(l[i], w[i]))), rsum(w)) }
pub open spec fn ll_row(y: real, x: real) -> real { 0real - (rmul(y, rln(sigmoid(x))) + rmul(1real - y, rln(1real - sigmoid(x)))) }
pub open spec fn sq(x: real) -> real { rmul(x, x) }
pub open spec fn log_loss_of(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>) -> real { wmean(Seq::new(y.len(), |i: int| ll_row(y[i].v(), x[i].v())), vals64(w)) }
pub open spec fn mse_of(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>) -> real { wmean(Seq::new(y.len(), |i: int| sq(y[i].v() - x[i].v())), vals64(w)) }
pub open spec fn msle_of(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>) -> real { wmean(Seq::new(y.len(), |i: int| sq(rln1p(y[i].v()) - rln1p(x[i].v()))), vals64(w)) }
pub open spec fn wpos(w: Seq<F64>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).fin() && w[i].v() >= 0real }
pub proof fn lemma_prefix(s: Seq<real>, k: int) requires 0 <= k < s.len(), ensures rsum(s.subrange(0, k + 1)) == rsum(s.subrange(0, k)) + s[k] {
    assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
}
pub proof fn lemma_whole(s: Seq<real>) ensures s.subrange(0, s.len() as int) == s { assert(s.subrange(0, s.len() as int) =~= s); }
pub proof fn lemma_sigmoid(x: real) ensures 0real < sigmoid(x) < 1real {
    ideal::exp_neg(x); ideal::exp_neg(0real - x);
    reveal(rdiv);
    let m = rexp(0real - x);
    assert(0real < 1real / (1real + m) && 1real / (1real + m) < 1real) by (nonlinear_arith) requires m > 0real;
}
pub proof fn lemma_wmean_nonneg(l: Seq<real>, w: Seq<real>, m: real)
    requires l.len() == w.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) >= 0real, forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) >= 0real, rsum(w) > 0real, m == wmean(l, w),
    ensures m >= 0real,
{
    let p = Seq::new(l.len(), |i: int| rmul(l[i], w[i]));
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] >= 0real by { reveal(rmul); let (a, b) = (l[i], w[i]); assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real; }
    lemma_rsum_nonneg(p);
    reveal(rdiv);
    let (a, b) = (rsum(p), rsum(w));
    assert(a / b >= 0real) by (nonlinear_arith) requires a >= 0real, b > 0real;
}
pub proof fn lemma_rsum_nonneg(s: Seq<real>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) >= 0real, ensures rsum(s) >= 0real, decreases s.len() {
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]) >= 0real by { assert(s[i] >= 0real); } assert(s[s.len() - 1] >= 0real); lemma_rsum_nonneg(s.drop_last()); }
}
pub proof fn lemma_sq_nonneg(x: real) ensures sq(x) >= 0real { reveal(rmul); assert(x * x >= 0real) by (nonlinear_arith); }
pub proof fn lemma_neg_mul(a: real, b: real) ensures rmul(0real - a, b) == 0real - rmul(a, b) { reveal(rmul); assert((0real - a) * b == 0real - a * b) by (nonlinear_arith); }
/*@fn metric.rs :: log_loss
maploop F64
lit f64
ret r
spec:
    requires fin_rows(y@, yhat@, sample_weight@), rsum(vals64(sample_weight@)) != 0real,
    ensures r.e() == Ext::Fin(log_loss_of(y@, yhat@, sample_weight@)),
start:
    broadcast use opaque_arith;
    let ghost ww = vals64(sample_weight@);
    let ghost tt = Seq::new(y@.len(), |i: int| rmul(Seq::new(y@.len(), |i: int| ll_row(y@[i].v(), yhat@[i].v()))[i], ww[i]));
loop 1 iter it:
    invariant fin_rows(y@, yhat@, sample_weight@), ww == vals64(sample_weight@),
        tt == Seq::new(y@.len(), |i: int| rmul(Seq::new(y@.len(), |i: int| ll_row(y@[i].v(), yhat@[i].v()))[i], ww[i])),
        it.seq().len() == y@.len(),
        forall|k: int| 0 <= k < y@.len() ==> *(#[trigger] it.seq()[k]).0.0 == y@[k] && *it.seq()[k].0.1 == yhat@[k] && *it.seq()[k].1 == sample_weight@[k],
        vx_acc@.len() == it.index@,
        forall|k: int| 0 <= k < it.index@ ==> (#[trigger] vx_acc@[k]).e() == Ext::Fin(tt[k]),
        w_sum.e() == Ext::Fin(rsum(ww.subrange(0, it.index@ as int))),
loop 1 start:
    broadcast use opaque_arith;
    proof { lemma_prefix(ww, it.index@); lemma_sigmoid(yhat@[it.index@ as int].v()); }
after "let vx_item = { w_sum += *w_;":
    broadcast use opaque_arith;
before "vx_acc.vx_fsum()":
    proof { lemma_whole(ww); assert(hint(tt)); }
*/
/*@fn metric.rs :: root_mean_squared_error
maploop F64
lit f64
std powi sqrt
ret r
spec:
    requires fin_rows(y@, yhat@, sample_weight@), wpos(sample_weight@), rsum(vals64(sample_weight@)) > 0real,
    ensures r.e() == Ext::Fin(rsqrt(mse_of(y@, yhat@, sample_weight@))),
start:
    broadcast use opaque_arith;
    let ghost ww = vals64(sample_weight@);
    let ghost ll = Seq::new(y@.len(), |i: int| sq(y@[i].v() - yhat@[i].v()));
    let ghost tt = Seq::new(y@.len(), |i: int| rmul(ll[i], ww[i]));
loop 1 iter it:
    invariant fin_rows(y@, yhat@, sample_weight@), ww == vals64(sample_weight@),
        ll == Seq::new(y@.len(), |i: int| sq(y@[i].v() - yhat@[i].v())),
        tt == Seq::new(y@.len(), |i: int| rmul(ll[i], ww[i])),
        it.seq().len() == y@.len(),
        forall|k: int| 0 <= k < y@.len() ==> *(#[trigger] it.seq()[k]).0.0 == y@[k] && *it.seq()[k].0.1 == yhat@[k] && *it.seq()[k].1 == sample_weight@[k],
        vx_acc@.len() == it.index@,
        forall|k: int| 0 <= k < it.index@ ==> (#[trigger] vx_acc@[k]).e() == Ext::Fin(tt[k]),
        w_sum.e() == Ext::Fin(rsum(ww.subrange(0, it.index@ as int))),
loop 1 start:
    broadcast use opaque_arith;
    proof { lemma_prefix(ww, it.index@); }
before "vx_acc.vx_fsum()":
    proof { lemma_whole(ww); assert(hint(tt)); assert forall|i: int| 0 <= i < ll.len() implies #[trigger] ll[i] >= 0real by { lemma_sq_nonneg(y@[i].v() - yhat@[i].v()); } lemma_wmean_nonneg(ll, ww, wmean(ll, ww)); }
*/
/*@fn metric.rs :: root_mean_squared_log_error
maploop F64
lit f64
std powi sqrt ln_1p
ret r
spec:
    requires fin_rows(y@, yhat@, sample_weight@), wpos(sample_weight@), rsum(vals64(sample_weight@)) > 0real,
        forall|i: int| 0 <= i < y@.len() ==> (#[trigger] y@[i]).v() > 0real - 1real && yhat@[i].v() > 0real - 1real,
    ensures r.e() == Ext::Fin(rsqrt(msle_of(y@, yhat@, sample_weight@))),
start:
    broadcast use opaque_arith;
    let ghost ww = vals64(sample_weight@);
    let ghost ll = Seq::new(y@.len(), |i: int| sq(rln1p(y@[i].v()) - rln1p(yhat@[i].v())));
    let ghost tt = Seq::new(y@.len(), |i: int| rmul(ll[i], ww[i]));
loop 1 iter it:
    invariant fin_rows(y@, yhat@, sample_weight@), ww == vals64(sample_weight@),
        forall|i: int| 0 <= i < y@.len() ==> (#[trigger] y@[i]).v() > 0real - 1real && yhat@[i].v() > 0real - 1real,
        ll == Seq::new(y@.len(), |i: int| sq(rln1p(y@[i].v()) - rln1p(yhat@[i].v()))),
        tt == Seq::new(y@.len(), |i: int| rmul(ll[i], ww[i])),
        it.seq().len() == y@.len(),
        forall|k: int| 0 <= k < y@.len() ==> *(#[trigger] it.seq()[k]).0.0 == y@[k] && *it.seq()[k].0.1 == yhat@[k] && *it.seq()[k].1 == sample_weight@[k],
        vx_acc@.len() == it.index@,
        forall|k: int| 0 <= k < it.index@ ==> (#[trigger] vx_acc@[k]).e() == Ext::Fin(tt[k]),
        w_sum.e() == Ext::Fin(rsum(ww.subrange(0, it.index@ as int))),
loop 1 start:
    broadcast use opaque_arith;
    proof { lemma_prefix(ww, it.index@); }
before "vx_acc.vx_fsum()":
    proof { lemma_whole(ww); assert(hint(tt)); assert forall|i: int| 0 <= i < ll.len() implies #[trigger] ll[i] >= 0real by { lemma_sq_nonneg(rln1p(y@[i].v()) - rln1p(yhat@[i].v())); } lemma_wmean_nonneg(ll, ww, wmean(ll, ww)); }
*/
/*@fn metric.rs :: is_comparison_better
ret r
spec:
    ensures r <==> !comparison.nan() && (value.nan() || (if maximize { ext_lt(value.e(), comparison.e()) } else { ext_lt(comparison.e(), value.e()) })),
*/
