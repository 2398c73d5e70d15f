// ================================================================ metric.rs : area under the curve
/// positive / negative mass of a row
pub open spec fn pos(y: Seq<F64>, w: Seq<F64>, i: usize) -> real { rmul(y[i as int].v(), w[i as int].v()) }
pub open spec fn neg(y: Seq<F64>, w: Seq<F64>, i: usize) -> real { rmul(1real - y[i as int].v(), w[i as int].v()) }
/// the weight with which row i (as a positive) outranks row j (as a negative), ties counting half
pub open spec fn outrank(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>, i: usize, j: usize) -> real {
    if x[i as int].v() > x[j as int].v() { pos(y, w, i) * neg(y, w, j) }
    else if x[i as int].v() == x[j as int].v() { (1real / 2real) * (pos(y, w, i) * neg(y, w, j)) }
    else { 0real }
}
pub open spec fn cross(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>, u: Seq<usize>, v: Seq<usize>) -> real { fsum(u, |i: usize| fsum(v, |j: usize| outrank(y, x, w, i, j))) }
pub open spec fn psum(y: Seq<F64>, w: Seq<F64>, u: Seq<usize>) -> real { fsum(u, |i: usize| pos(y, w, i)) }
pub open spec fn nsum(y: Seq<F64>, w: Seq<F64>, u: Seq<usize>) -> real { fsum(u, |i: usize| neg(y, w, i)) }
pub open spec fn iota(n: nat) -> Seq<usize> { Seq::new(n, |i: int| i as usize) }
proof fn lemma_cross_cat(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>, a: Seq<usize>, b: Seq<usize>)
    ensures cross(y, x, w, a + b, a + b) == cross(y, x, w, a, a) + cross(y, x, w, a, b) + cross(y, x, w, b, a) + cross(y, x, w, b, b),
{
    let h = |i: usize| fsum(a + b, |j: usize| outrank(y, x, w, i, j));
    let f = |i: usize| fsum(a, |j: usize| outrank(y, x, w, i, j));
    let g = |i: usize| fsum(b, |j: usize| outrank(y, x, w, i, j));
    assert forall|i: usize| #[trigger] h(i) == f(i) + g(i) by { lemma_fsum_cat(a, b, |j: usize| outrank(y, x, w, i, j)); }
    lemma_fsum_cat(a, b, h);
    lemma_fsum_add(a, f, g, h);
    lemma_fsum_add(b, f, g, h);
}
proof fn dist2(c: real, a: real, b: real) ensures c * (a + b) == c * a + c * b { assert(c * (a + b) == c * a + c * b) by (nonlinear_arith); }
proof fn dist2r(c: real, a: real, b: real) ensures (a + b) * c == a * c + b * c { assert((a + b) * c == a * c + b * c) by (nonlinear_arith); }
proof fn lemma_inner(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>, i: usize, v: Seq<usize>, c: real)
    requires forall|k: int| 0 <= k < v.len() ==> outrank(y, x, w, i, #[trigger] v[k]) == c * (pos(y, w, i) * neg(y, w, v[k])),
    ensures fsum(v, |j: usize| outrank(y, x, w, i, j)) == c * (pos(y, w, i) * nsum(y, w, v)),
    decreases v.len()
{
    let p = pos(y, w, i);
    if v.len() > 0 {
        assert forall|k: int| 0 <= k < v.drop_last().len() implies outrank(y, x, w, i, #[trigger] v.drop_last()[k]) == c * (p * neg(y, w, v.drop_last()[k])) by { assert(v[k] == v.drop_last()[k]); }
        lemma_inner(y, x, w, i, v.drop_last(), c);
        assert(outrank(y, x, w, i, v[v.len() - 1]) == c * (p * neg(y, w, v[v.len() - 1])));
        let (m, l) = (nsum(y, w, v.drop_last()), neg(y, w, v.last()));
        dist2(p, m, l);
        dist2(c, p * m, p * l);
    } else {
        assert(p * 0real == 0real);
        assert(c * 0real == 0real);
    }
}
proof fn lemma_block(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>, u: Seq<usize>, v: Seq<usize>, c: real)
    requires forall|a: int, b: int| 0 <= a < u.len() && 0 <= b < v.len() ==> outrank(y, x, w, #[trigger] u[a], #[trigger] v[b]) == c * (pos(y, w, u[a]) * neg(y, w, v[b])),
    ensures cross(y, x, w, u, v) == c * (psum(y, w, u) * nsum(y, w, v)),
    decreases u.len()
{
    let n = nsum(y, w, v);
    if u.len() > 0 {
        assert forall|a: int, b: int| 0 <= a < u.drop_last().len() && 0 <= b < v.len() implies outrank(y, x, w, #[trigger] u.drop_last()[a], #[trigger] v[b]) == c * (pos(y, w, u.drop_last()[a]) * neg(y, w, v[b])) by { assert(u[a] == u.drop_last()[a]); }
        lemma_block(y, x, w, u.drop_last(), v, c);
        assert forall|k: int| 0 <= k < v.len() implies outrank(y, x, w, u.last(), #[trigger] v[k]) == c * (pos(y, w, u.last()) * neg(y, w, v[k])) by { assert(u[u.len() - 1] == u.last()); }
        lemma_inner(y, x, w, u.last(), v, c);
        let (m, l) = (psum(y, w, u.drop_last()), pos(y, w, u.last()));
        dist2r(n, m, l);
        dist2(c, m * n, l * n);
    } else {
        assert(0real * n == 0real);
        assert(c * 0real == 0real);
    }
}
/// the rows are in descending order of score
pub open spec fn descending(x: Seq<F64>, s: Seq<usize>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> x[#[trigger] s[a] as int].v() >= x[#[trigger] s[b] as int].v() }
/// rows g..m tie, the rows before g have larger scores
pub open spec fn group(x: Seq<F64>, s: Seq<usize>, g: int, m: int) -> bool {
    &&& 0 <= g < m <= s.len()
    &&& forall|a: int| g <= a < m ==> x[#[trigger] s[a] as int].v() == x[s[g] as int].v()
    &&& forall|a: int| 0 <= a < g ==> x[#[trigger] s[a] as int].v() > x[s[g] as int].v()
}
proof fn lemma_half(c: real) ensures 1real * c == c, 0real * c == 0real { }
proof fn lemma_group(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>, s: Seq<usize>, g: int, m: int)
    requires group(x, s, g, m),
    ensures ({
        let (a, b, ab) = (s.subrange(0, g), s.subrange(g, m), s.subrange(0, m));
        &&& cross(y, x, w, ab, ab) == cross(y, x, w, a, a) + psum(y, w, a) * nsum(y, w, b) + (1real / 2real) * (psum(y, w, b) * nsum(y, w, b))
        &&& psum(y, w, ab) == psum(y, w, a) + psum(y, w, b) && nsum(y, w, ab) == nsum(y, w, a) + nsum(y, w, b)
    }),
{
    let (a, b) = (s.subrange(0, g), s.subrange(g, m));
    assert(s.subrange(0, m) =~= a + b);
    lemma_cross_cat(y, x, w, a, b);
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() implies outrank(y, x, w, #[trigger] a[i], #[trigger] b[j]) == 1real * (pos(y, w, a[i]) * neg(y, w, b[j])) by {
        assert(x[s[i] as int].v() > x[s[g] as int].v() && x[s[g + j] as int].v() == x[s[g] as int].v());
        lemma_half(pos(y, w, a[i]) * neg(y, w, b[j]));
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < a.len() implies outrank(y, x, w, #[trigger] b[i], #[trigger] a[j]) == 0real * (pos(y, w, b[i]) * neg(y, w, a[j])) by {
        assert(x[s[j] as int].v() > x[s[g] as int].v() && x[s[g + i] as int].v() == x[s[g] as int].v());
        lemma_half(pos(y, w, b[i]) * neg(y, w, a[j]));
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() implies outrank(y, x, w, #[trigger] b[i], #[trigger] b[j]) == (1real / 2real) * (pos(y, w, b[i]) * neg(y, w, b[j])) by {
        assert(x[s[g + j] as int].v() == x[s[g] as int].v() && x[s[g + i] as int].v() == x[s[g] as int].v());
    }
    lemma_block(y, x, w, a, b, 1real);
    lemma_block(y, x, w, b, a, 0real);
    lemma_block(y, x, w, b, b, 1real / 2real);
    lemma_half(psum(y, w, a) * nsum(y, w, b));
    lemma_half(psum(y, w, b) * nsum(y, w, a));
    lemma_fsum_cat(a, b, |i: usize| pos(y, w, i));
    lemma_fsum_cat(a, b, |i: usize| neg(y, w, i));
}
proof fn lemma_cross_perm(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>, s: Seq<usize>, t: Seq<usize>)
    requires s.to_multiset() == t.to_multiset(),
    ensures cross(y, x, w, s, s) == cross(y, x, w, t, t), psum(y, w, s) == psum(y, w, t), nsum(y, w, s) == nsum(y, w, t),
{
    let f = |i: usize| fsum(s, |j: usize| outrank(y, x, w, i, j));
    let g = |i: usize| fsum(t, |j: usize| outrank(y, x, w, i, j));
    assert forall|i: usize| #[trigger] f(i) == g(i) by { lemma_fsum_perm(s, t, |j: usize| outrank(y, x, w, i, j)); }
    lemma_fsum_ext(s, f, g);
    lemma_fsum_perm(s, t, g);
    lemma_fsum_perm(s, t, |i: usize| pos(y, w, i));
    lemma_fsum_perm(s, t, |i: usize| neg(y, w, i));
}
proof fn lemma_nsum_nonneg(y: Seq<F64>, w: Seq<F64>, u: Seq<usize>)
    requires y.len() == w.len(), wpos(w), labels_ok(y), forall|k: int| 0 <= k < u.len() ==> #[trigger] u[k] < y.len(),
    ensures nsum(y, w, u) >= 0real,
    decreases u.len()
{
    if u.len() > 0 {
        assert forall|k: int| 0 <= k < u.drop_last().len() implies #[trigger] u.drop_last()[k] < y.len() by { assert(u[k] < y.len()); }
        lemma_nsum_nonneg(y, w, u.drop_last());
        let i = u[u.len() - 1];
        assert(i < y.len());
        reveal(rmul);
        let (a, b) = (1real - y[i as int].v(), w[i as int].v());
        assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real;
    }
}
pub open spec fn labels_ok(y: Seq<F64>) -> bool { forall|i: int| 0 <= i < y.len() ==> (#[trigger] y[i]).fin() && 0real <= y[i].v() <= 1real }
pub open spec fn trap(x0: real, x1: real, y0: real, y1: real) -> real { rmul(rmul(if x0 - x1 < 0real { 0real - (x0 - x1) } else { x0 - x1 }, y0 + y1), 1real / 2real) }
proof fn lemma_trap(n0: real, n1: real, p0: real, p1: real)
    requires n1 >= 0real,
    ensures trap(n0, n0 + n1, p0, p0 + p1) == p0 * n1 + (1real / 2real) * (p1 * n1),
{
    reveal(rmul);
    assert(trap(n0, n0 + n1, p0, p0 + p1) == (n1 * (p0 + (p0 + p1))) * (1real / 2real));
    assert((n1 * (p0 + (p0 + p1))) * (1real / 2real) == p0 * n1 + (1real / 2real) * (p1 * n1)) by (nonlinear_arith);
}
/*@fn metric.rs :: trapezoid_area
lit f64
ret r
spec:
    requires x0.fin(), x1.fin(), y0.fin(), y1.fin(),
    ensures r.e() == Ext::Fin(trap(x0.v(), x1.v(), y0.v(), y1.v())),
start:
    broadcast use opaque_arith;
*/
proof fn lemma_step(y: Seq<F64>, w: Seq<F64>, s: Seq<usize>, m: int)
    requires 0 <= m < s.len(),
    ensures psum(y, w, s.subrange(0, m + 1)) == psum(y, w, s.subrange(0, m)) + pos(y, w, s[m]), nsum(y, w, s.subrange(0, m + 1)) == nsum(y, w, s.subrange(0, m)) + neg(y, w, s[m]),
{
    assert(s.subrange(0, m + 1).drop_last() =~= s.subrange(0, m));
}
proof fn lemma_area(y: Seq<F64>, x: Seq<F64>, w: Seq<F64>, s: Seq<usize>, g: int, m: int)
    requires group(x, s, g, m), y.len() == w.len(), wpos(w), labels_ok(y), forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < y.len(),
    ensures cross(y, x, w, s.subrange(0, m), s.subrange(0, m)) == cross(y, x, w, s.subrange(0, g), s.subrange(0, g)) + trap(nsum(y, w, s.subrange(0, g)), nsum(y, w, s.subrange(0, m)), psum(y, w, s.subrange(0, g)), psum(y, w, s.subrange(0, m))),
{
    lemma_group(y, x, w, s, g, m);
    lemma_nsum_nonneg(y, w, s.subrange(g, m));
    lemma_trap(nsum(y, w, s.subrange(0, g)), nsum(y, w, s.subrange(g, m)), psum(y, w, s.subrange(0, g)), psum(y, w, s.subrange(g, m)));
}
proof fn lemma_perm_bound(s: Seq<usize>, n: nat) requires s.to_multiset() == iota(n).to_multiset(), ensures s.len() == n, forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < n {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == s.to_multiset().len() && iota(n).len() == iota(n).to_multiset().len());
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < n by { assert(s.contains(s[k])); assert(iota(n).to_multiset().count(s[k]) > 0); assert(iota(n).contains(s[k])); }
}
/*@fn metric.rs :: roc_auc_score
lit f64
std sort_unstable_by
ret r
spec:
    requires fin_rows(y@, yhat@, sample_weight@), wpos(sample_weight@), labels_ok(y@), y@.len() > 0,
    ensures ({
        let all = iota(y@.len());
        let (p, n) = (psum(y@, sample_weight@, all), nsum(y@, sample_weight@, all));
        p > 0real && n > 0real ==> r.e() == Ext::Fin(rdiv(cross(y@, yhat@, sample_weight@, all, all), rmul(p, n)))
    }),
start:
    broadcast use opaque_arith;
    let ghost (yy, xx, ww) = (y@, yhat@, sample_weight@);
    proof { assert forall|i: int| 0 <= i < yhat@.len() implies (#[trigger] yhat@[i]).fin() by { assert(y@[i].fin()); } }
closure 1:
    |p1__: &usize, p2__: &usize| -> (o: Ordering) requires *p1__ < yhat@.len(), *p2__ < yhat@.len(), all_fin64(yhat@),
        ensures ext_lt(yhat@[*p2__ as int].e(), yhat@[*p1__ as int].e()) ==> o is Less, ext_lt(yhat@[*p1__ as int].e(), yhat@[*p2__ as int].e()) ==> o is Greater
after "collect::<Vec<_>>();":
    proof { assert(indices@ =~= iota(y@.len())); }
after "total_cmp(&yhat[a]));":
    let ghost s = indices@;
    let ghost mut g: int = 0;
    proof {
        lemma_perm_bound(s, y@.len());
        lemma_cross_perm(yy, xx, ww, s, iota(y@.len()));
        assert forall|a: int, b: int| 0 <= a < b < s.len() implies xx[#[trigger] s[a] as int].v() >= xx[#[trigger] s[b] as int].v() by { assert(xx[s[a] as int].fin() && xx[s[b] as int].fin()); }
        lemma_step(yy, ww, s, 0);
        assert(s.subrange(0, 0) =~= Seq::<usize>::empty());
    }
loop 1:
    invariant
        fin_rows(y@, yhat@, sample_weight@), wpos(sample_weight@), labels_ok(y@), y@.len() > 0,
        yy == y@, xx == yhat@, ww == sample_weight@, s == indices@, s.len() == y@.len(),
        forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < y@.len(),
        descending(xx, s), group(xx, s, g, i as int), 1 <= i,
        tp.e() == Ext::Fin(psum(yy, ww, s.subrange(0, i as int))), fp.e() == Ext::Fin(nsum(yy, ww, s.subrange(0, i as int))),
        tp_prev.e() == Ext::Fin(psum(yy, ww, s.subrange(0, g))), fp_prev.e() == Ext::Fin(nsum(yy, ww, s.subrange(0, g))),
        auc.e() == Ext::Fin(cross(yy, xx, ww, s.subrange(0, g), s.subrange(0, g))),
loop 1 start:
    broadcast use opaque_arith;
    proof {
        lemma_area(yy, xx, ww, s, g, i as int);
        lemma_step(yy, ww, s, i as int);
        assert(xx[s[i - 1] as int].v() >= xx[s[i as int] as int].v());
        if xx[s[i as int] as int].v() != xx[s[i - 1] as int].v() {
            g = i as int;
            assert forall|a: int| 0 <= a < g implies xx[#[trigger] s[a] as int].v() > xx[s[g] as int].v() by { if a < i - 1 { assert(xx[s[a] as int].v() >= xx[s[i - 1] as int].v()); } }
        }
    }
before 2 "auc += trapezoid_area(fp_prev, fp, tp_prev, tp);":
    proof { lemma_area(yy, xx, ww, s, g, s.len() as int); assert(s.subrange(0, s.len() as int) =~= s); }
before "auc / (tp * fp)":
    proof { reveal(rmul); let (a, b) = (tp.v(), fp.v()); if a > 0real && b > 0real { assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; } }
*/
/*@struct metric.rs :: AUCMetric */
impl AUCMetric {
/*@fn metric.rs :: EvaluationMetric for AUCMetric :: calculate_metric
ret r
spec:
    requires fin_rows(y@, yhat@, sample_weight@), wpos(sample_weight@), labels_ok(y@), y@.len() > 0,
    ensures ({
        let all = iota(y@.len());
        let (p, n) = (psum(y@, sample_weight@, all), nsum(y@, sample_weight@, all));
        p > 0real && n > 0real ==> r.e() == Ext::Fin(rdiv(cross(y@, yhat@, sample_weight@, all, all), rmul(p, n)))
    }),
*/
/*@fn metric.rs :: EvaluationMetric for AUCMetric :: maximize
ret r
spec:
    ensures r,
*/
}
/*@struct metric.rs :: LogLossMetric */
impl LogLossMetric {
/*@fn metric.rs :: EvaluationMetric for LogLossMetric :: calculate_metric
ret r
spec:
    requires fin_rows(y@, yhat@, sample_weight@), rsum(vals64(sample_weight@)) != 0real,
    ensures r.e() == Ext::Fin(log_loss_of(y@, yhat@, sample_weight@)),
*/
/*@fn metric.rs :: EvaluationMetric for LogLossMetric :: maximize
ret r
spec:
    ensures !r,
*/
}
/*@struct metric.rs :: RootMeanSquaredErrorMetric */
impl RootMeanSquaredErrorMetric {
/*@fn metric.rs :: EvaluationMetric for RootMeanSquaredErrorMetric :: calculate_metric
ret r
spec:
    requires fin_rows(y@, yhat@, sample_weight@), wpos(sample_weight@), rsum(vals64(sample_weight@)) > 0real,
    ensures r.e() == Ext::Fin(rsqrt(mse_of(y@, yhat@, sample_weight@))),
*/
/*@fn metric.rs :: EvaluationMetric for RootMeanSquaredErrorMetric :: maximize
ret r
spec:
    ensures !r,
*/
}
/*@struct metric.rs :: RootMeanSquaredLogErrorMetric */
impl RootMeanSquaredLogErrorMetric {
/*@fn metric.rs :: EvaluationMetric for RootMeanSquaredLogErrorMetric :: calculate_metric
ret r
spec:
    requires fin_rows(y@, yhat@, sample_weight@), wpos(sample_weight@), rsum(vals64(sample_weight@)) > 0real, forall|i: int| 0 <= i < y@.len() ==> (#[trigger] y@[i]).v() > 0real - 1real && yhat@[i].v() > 0real - 1real,
    ensures r.e() == Ext::Fin(rsqrt(msle_of(y@, yhat@, sample_weight@))),
*/
/*@fn metric.rs :: EvaluationMetric for RootMeanSquaredLogErrorMetric :: maximize
ret r
spec:
    ensures !r,
*/
}
