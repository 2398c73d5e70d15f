/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/matrix.vrs*/
/*@include ../inc/jagged.vrs*/
/*@include ../inc/missing.vrs*/
/*@include ../inc/sums.vrs*/
/*@include ../inc/percentiles.vrs*/
/*@include ../inc/mapbin.vrs*/
/*@include ../inc/dedup.vrs*/
pub enum ForustError { Any }
/*@struct binning.rs :: BinnedData */
pub open spec fn pos_weights(w: Seq<F64>) -> bool { all_fin64(w) && forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).v() > 0real }
pub proof fn lemma_pos_sum(w: Seq<F64>)
    requires pos_weights(w),
    ensures rsum(vals64(w)) >= 0real, w.len() > 0 ==> rsum(vals64(w)) > 0real,
    decreases w.len()
{
    if w.len() > 0 { lemma_pos_sum(w.drop_last()); assert(vals64(w).drop_last() =~= vals64(w.drop_last())); }
}
/// what percentiles_or_value hands to the binning: sorted values of the data that start at the smallest
pub open spec fn col_values(v: Seq<F64>, r: Seq<F64>) -> bool {
    &&& nondecreasing(r)
    &&& r.len() <= u16::MAX
    &&& v.len() > 0 ==> r.len() > 0
    &&& forall|i: int| 0 <= i < r.len() ==> has_val(v, #[trigger] r[i])
    &&& forall|i: int| 0 <= i < v.len() ==> ext_le(r[0].e(), #[trigger] v[i].e())
}
pub proof fn lemma_perm_has(a: Seq<F64>, b: Seq<F64>, x: F64)
    requires a.to_multiset() == b.to_multiset(), a.contains(x),
    ensures b.contains(x),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().count(x) > 0);
}
/// the distinct values
pub proof fn lemma_unique_values(v: Seq<F64>, s: Seq<F64>)
    requires no_nan(v), nondecreasing(s), s.to_multiset() == v.to_multiset(), dedup(s).len() <= u16::MAX,
    ensures col_values(v, dedup(s)),
{
    hide(ext_lt);
    lemma_dedup_order(s);
    lemma_dedup_vals(s);
    let d = dedup(s);
    assert forall|i: int| 0 <= i < d.len() implies has_val(v, #[trigger] d[i]) by {
        assert(has_val(s, d[i]));
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).e() == d[i].e();
        assert(s.contains(s[k]));
        lemma_perm_has(s, v, s[k]);
        let m = choose|m: int| 0 <= m < v.len() && v[m] == s[k];
        assert(v[m].e() == d[i].e());
    }
    assert forall|i: int| 0 <= i < v.len() implies ext_le(d[0].e(), #[trigger] v[i].e()) by {
        assert(v.contains(v[i]));
        lemma_perm_has(v, s, v[i]);
        let k = choose|k: int| 0 <= k < s.len() && s[k] == v[i];
        if k > 0 { assert(ext_le(s[0].e(), s[k].e())); } else { assert(ext_eq(s[0].e(), v[i].e())); }
    }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies ext_le(#[trigger] d[i].e(), #[trigger] d[j].e()) by { assert(ext_lt(d[i].e(), d[j].e())); }
    if v.len() > 0 { assert(v.contains(v[0])); lemma_perm_has(v, s, v[0]); }
}
/// the percentiles
pub open spec fn pct_ctx(v: Seq<F64>, w: Seq<F64>, pcts: Seq<F64>, r: Seq<F64>, idx: Seq<usize>) -> bool {
    no_nan(v) && v.len() == w.len() && 0 < v.len() <= usize::MAX && pos_weights(w) && pcts_ok(pcts) && pcts[0].v() == 0real && pcts.len() <= u16::MAX && pct_result(v, w, pcts, r, idx)
}
pub proof fn lemma_pct_at(v: Seq<F64>, w: Seq<F64>, pcts: Seq<F64>, r: Seq<F64>, idx: Seq<usize>, i: int) -> (k: int)
    requires pct_result(v, w, pcts, r, idx), 0 <= i < r.len(),
    ensures reaches(w, idx, rsum(vals64(w)), pcts[i].v(), k), 0 <= k < idx.len(), r[i].e() == v[idx[k] as int].e(), 0 <= idx[k] < v.len(),
{
    assert(pct_of(v, w, idx, rsum(vals64(w)), pcts[i].v(), r[i]));
    choose|k: int| #[trigger] reaches(w, idx, rsum(vals64(w)), pcts[i].v(), k) && r[i].e() == v[idx[k] as int].e()
}
proof fn lemma_at_order(w: Seq<F64>, idx: Seq<usize>, total: real, p: real, q: real, a: int, b: int)
    requires reaches(w, idx, total, p, a), reaches(w, idx, total, q, b), p <= q, total >= 0real,
        all_fin64(w), forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).v() > 0real,
        forall|i: int| 0 <= i < idx.len() ==> #[trigger] idx[i] < w.len(),
    ensures a <= b,
{
    lemma_share_mono(p, q, total);
    if b < a { lemma_mass_mono(w, idx, b + 1, a); }
}
pub proof fn lemma_pct_order(v: Seq<F64>, w: Seq<F64>, pcts: Seq<F64>, r: Seq<F64>, idx: Seq<usize>, i: int, j: int)
    requires pct_ctx(v, w, pcts, r, idx), 0 <= i < j < r.len(),
    ensures ext_le(r[i].e(), r[j].e()),
{
    lemma_pos_sum(w);
    let a = lemma_pct_at(v, w, pcts, r, idx, i);
    let b = lemma_pct_at(v, w, pcts, r, idx, j);
    lemma_at_order(w, idx, rsum(vals64(w)), pcts[i].v(), pcts[j].v(), a, b);
    if a < b { assert(ext_le(v[idx[a] as int].e(), v[idx[b] as int].e())); } else { assert(!v[idx[a] as int].nan()); assert(ext_eq(r[i].e(), r[j].e())); }
}
pub proof fn lemma_pct_min(v: Seq<F64>, w: Seq<F64>, pcts: Seq<F64>, r: Seq<F64>, idx: Seq<usize>, i: int)
    requires pct_ctx(v, w, pcts, r, idx), 0 <= i < v.len(),
    ensures ext_le(r[0].e(), v[i].e()),
{
    let total = rsum(vals64(w));
    lemma_pos_sum(w);
    let a = lemma_pct_at(v, w, pcts, r, idx, 0);
    lemma_share_ends(total);
    if a > 0 { lemma_mass_mono(w, idx, 0, a); }
    lemma_idx_has(v, idx, i);
    let k = choose|k: int| 0 <= k < idx.len() && idx[k] == i as usize;
    if k > 0 { assert(ext_le(v[idx[0] as int].e(), v[idx[k] as int].e())); } else { assert(!v[i].nan()); assert(ext_eq(r[0].e(), v[i].e())); }
}
pub proof fn lemma_pct_values(v: Seq<F64>, w: Seq<F64>, pcts: Seq<F64>, r: Seq<F64>, idx: Seq<usize>)
    requires pct_ctx(v, w, pcts, r, idx),
    ensures col_values(v, r),
{
    assert(r.len() == pcts.len()) by { }
    assert(pcts.len() > 0) by { }
    assert forall|i: int| 0 <= i < r.len() implies !(#[trigger] r[i]).nan() && has_val(v, r[i]) by {
        let k = lemma_pct_at(v, w, pcts, r, idx, i);
        lemma_has(v, r[i], idx[k] as int);
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies ext_le(#[trigger] r[i].e(), #[trigger] r[j].e()) by { lemma_pct_order(v, w, pcts, r, idx, i, j); }
    assert forall|i: int| 0 <= i < v.len() implies ext_le(r[0].e(), #[trigger] v[i].e()) by { lemma_pct_min(v, w, pcts, r, idx, i); }
}
proof fn lemma_has(v: Seq<F64>, x: F64, k: int) requires 0 <= k < v.len(), v[k].e() == x.e(), no_nan(v), ensures has_val(v, x), !x.nan(), {}
pub proof fn lemma_idx_has(v: Seq<F64>, idx: Seq<usize>, i: int)
    requires sorts(v, idx), 0 <= i < v.len() <= usize::MAX,
    ensures idx.contains(i as usize),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(iota(v.len())[i] == i as usize);
    assert(iota(v.len()).contains(i as usize)); assert(iota(v.len()).to_multiset().count(i as usize) > 0);
}
/*@fn binning.rs :: percentiles_or_value
subst T=F64
std to_owned sort_unstable_by dedup ::percentiles
ret r
spec:
    requires v@.len() == sample_weight@.len(), no_nan(v@), pos_weights(sample_weight@), pcts_ok(pcts@), pcts@[0].v() == 0real, pcts@.len() <= u16::MAX,
    ensures col_values(v@, r@),
closure 1:
    |a: &F64, b: &F64| -> (o: Ordering) requires !a.nan(), !b.nan(), ensures Some(o) == ext_cmp(a.e(), b.e())
after "unwrap());":
    let ghost s = v_u@;
    proof {
        assert forall|i: int| 0 <= i < s.len() implies !(#[trigger] s[i]).nan() by { assert(s.contains(s[i])); lemma_perm_has(s, v@, s[i]); }
        assert(nondecreasing(s));
        lemma_dedup_order(s);
        lemma_pos_sum(sample_weight@);
        if v@.len() == 0 { assert(s.len() == 0); }
    }
tail:
    proof {
        if dedup(s).len() <= (if pcts@.len() + 1 < u16::MAX { pcts@.len() + 1 } else { u16::MAX as nat }) { lemma_unique_values(v@, s); }
        else {
            let idx = choose|idx: Seq<usize>| #[trigger] pct_result(v@, sample_weight@, pcts@, r@, idx);
            let n: usize = v.len(); assert(v@.len() == n);
            lemma_pct_values(v@, sample_weight@, pcts@, r@, idx);
        }
    }
*/

pub open spec fn below_max(c: Seq<F64>) -> bool { c.len() > 0 && c.last().e() == F64::max_().e() }
/*@fn binning.rs :: bin_matrix_from_cuts
subst T=F64
ret r
spec:
    requires
        data.wf(), cuts.wf(), cuts.cols == data.cols,
        forall|j: int| 0 <= j < data.cols ==> cuts_ok(#[trigger] cuts.col(j)) && cuts.col(j).len() <= 65536 && below_max(cuts.col(j)),
        forall|i: int| 0 <= i < data.data@.len() ==> missing_bin(#[trigger] data.data@[i], *missing) || ext_lt(data.data@[i].e(), F64::max_().e()),
    ensures
        r@.len() == data.data@.len(),
        forall|i: int| 0 <= i < r@.len() ==> ({
            let v = data.data@[i]; let c = cuts.col(i / (data.rows as int));
            if missing_bin(v, *missing) { r@[i] == 0 } else { is_bin(c, v, #[trigger] r@[i] as int) }
        }),
closure 1:
    |p__: (usize, &F64)| -> (o: u16)
        requires data.wf(), cuts.wf(), cuts.cols == data.cols, p__.0 < data.data@.len(), *p__.1 == data.data@[p__.0 as int],
            forall|j: int| 0 <= j < data.cols ==> cuts_ok(#[trigger] cuts.col(j)) && cuts.col(j).len() <= 65536 && below_max(cuts.col(j)),
            missing_bin(*p__.1, *missing) || ext_lt(p__.1.e(), F64::max_().e()),
        ensures ({
            let v = *p__.1; let c = cuts.col(p__.0 as int / (data.rows as int));
            if missing_bin(v, *missing) { o == 0 } else { is_bin(c, v, o as int) }
        })
before "let col =":
    proof {
        assert(data.rows > 0) by (nonlinear_arith) requires i < data.rows * data.cols;
        assert(0 <= i as int / (data.rows as int) && i as int / (data.rows as int) < data.cols) by (nonlinear_arith)
            requires data.rows > 0, i < data.rows * data.cols;
    }
*/
/// the guarantee for one column: raw values d, cuts c
pub open spec fn col_binned(d: Seq<F64>, missing: F64, c: Seq<F64>) -> bool {
    &&& cuts_ok(c) && c.len() <= 65536 && below_max(c)
    &&& forall|i: int| 0 <= i < c.len() - 1 ==> seen(d, missing, #[trigger] c[i])
    &&& forall|k: int| 0 <= k < d.len() && !is_miss(#[trigger] d[k], missing) ==> c.len() > 1 && ext_le(c[0].e(), d[k].e())
}
pub open spec fn seen(d: Seq<F64>, missing: F64, x: F64) -> bool { exists|k: int| 0 <= k < d.len() && !is_miss(#[trigger] d[k], missing) && d[k].e() == x.e() }
/// n, m are the non-missing values of a column and their weights
pub open spec fn non_missing(d: Seq<F64>, sw: Seq<F64>, missing: F64, n: Seq<F64>, m: Seq<F64>) -> bool {
    &&& n.len() == m.len()
    &&& forall|i: int| 0 <= i < n.len() ==> #[trigger] comes_from(d, sw, missing, n[i], m[i])
    &&& forall|k: int| 0 <= k < d.len() && !is_miss(#[trigger] d[k], missing) ==> n.contains(d[k])
}
pub open spec fn comes_from(d: Seq<F64>, sw: Seq<F64>, missing: F64, x: F64, y: F64) -> bool {
    exists|k: int| 0 <= k < d.len() && k < sw.len() && !is_miss(#[trigger] d[k], missing) && d[k] == x && sw[k] == y
}
pub axiom fn axiom_max64() ensures F64::max_().fin();
/// names an index for the prover
/*@include ../inc/kept.vrs*/
/// the cuts of one column
pub proof fn lemma_col_cuts(d: Seq<F64>, sw: Seq<F64>, missing: F64, n: Seq<F64>, m: Seq<F64>, r: Seq<F64>)
    requires
        non_missing(d, sw, missing, n, m), col_values(n, r), F64::max_().fin(),
        forall|k: int| 0 <= k < d.len() ==> is_miss(#[trigger] d[k], missing) || ext_lt(d[k].e(), F64::max_().e()),
    ensures col_binned(d, missing, dedup(r.push(F64::max_()))),
{
    hide(ext_lt);
    let mx = F64::max_();
    let s = r.push(mx);
    assert forall|i: int| 0 <= i < r.len() implies ext_lt(#[trigger] r[i].e(), mx.e()) && seen(d, missing, r[i]) by {
        assert(has_val(n, r[i]));
        let k = choose|k: int| 0 <= k < n.len() && (#[trigger] n[k]).e() == r[i].e();
        assert(comes_from(d, sw, missing, n[k], m[k]));
        let l = choose|l: int| 0 <= l < d.len() && l < sw.len() && !is_miss(#[trigger] d[l], missing) && d[l] == n[k] && sw[l] == m[k];
        assert(d[l].e() == r[i].e());
    }
    assert(nondecreasing(s)) by {
        assert forall|i: int| 0 <= i < s.len() implies !(#[trigger] s[i]).nan() by { if i < r.len() { assert(s[i] == r[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies ext_le(#[trigger] s[i].e(), #[trigger] s[j].e()) by {
            assert(s[i] == r[i]);
            if j < r.len() { assert(s[j] == r[j]); }
        }
    }
    lemma_dedup_order(s);
    lemma_dedup_vals(s);
    let c = dedup(s);
    let last = c.len() - 1;
    assert forall|i: int| 0 <= i < c.len() - 1 implies seen(d, missing, #[trigger] c[i]) by {
        assert(ext_lt(c[i].e(), c[last].e()));
        assert(has_val(s, c[i]));
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).e() == c[i].e();
        if k == r.len() { lemma_lt_irr(c[i].e()); }
        assert(s[k] == r[k]);
        assert(seen(d, missing, r[k]));
    }
    assert forall|k: int| 0 <= k < d.len() && !is_miss(#[trigger] d[k], missing) implies c.len() > 1 && ext_le(c[0].e(), d[k].e()) by {
        assert(n.contains(d[k]));
        let i = choose|i: int| 0 <= i < n.len() && n[i] == d[k];
        assert(ext_le(r[0].e(), n[i].e()));
        assert(c[0] == s[0] && s[0] == r[0]);
        if c.len() == 1 { assert(ext_lt(r[0].e(), mx.e())); lemma_lt_irr(mx.e()); }
    }
}
proof fn lemma_lt_irr(a: Ext) ensures !ext_lt(a, a), {}
pub proof fn lemma_cell(data: Matrix<F64>, missing: F64, cuts: JaggedMatrix<F64>, b: u16, k: int)
    requires
        data.wf(), 0 <= k < data.data@.len(), val_ok(data.data@[k], missing),
        is_miss(data.data@[k], missing) || ext_lt(data.data@[k].e(), F64::max_().e()),
        forall|j: int| 0 <= j < data.cols ==> col_binned(data.col(j), missing, #[trigger] cuts.col(j)),
        ({ let v = data.data@[k]; let c = cuts.col(k / (data.rows as int)); if missing_bin(v, missing) { b == 0 } else { is_bin(c, v, b as int) } }),
    ensures ({
        let v = data.data@[k]; let c = cuts.col(k / (data.rows as int));
        &&& (b == 0) == is_miss(v, missing)
        &&& !is_miss(v, missing) ==> is_bin(c, v, b as int) && b < c.len() }),
{
    let n = data.rows as int;
    assert(n > 0) by (nonlinear_arith) requires k < data.rows * data.cols, 0 <= k, n == data.rows as int, data.data@.len() == data.rows * data.cols;
    let j = k / n; let i = k % n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
    assert(0 <= i < n) by (nonlinear_arith) requires i == k % n, n > 0;
    assert(0 <= j < data.cols) by (nonlinear_arith) requires n > 0, k == n * j + i, 0 <= i < n, 0 <= k < data.rows * data.cols, n == data.rows as int;
    let v = data.data@[k];
    let c = cuts.col(j);
    let d = data.col(j);
    assert(i + j * n == k) by (nonlinear_arith) requires k == n * j + i;
    assert(d[i] == v);
    assert(missing_bin(v, missing) == is_miss(v, missing));
    if !is_miss(v, missing) {
        assert(col_binned(d, missing, c));
        assert(c.len() > 1 && ext_le(c[0].e(), v.e()));
        if b == 0 { assert(ext_lt(v.e(), c[0].e())); }
        let l = c.len() - 1;
        if b == c.len() { assert(ext_le(c[l].e(), v.e())); }
    }
}
/*@fn binning.rs :: bin_matrix
std filter unzip dedup extend sum
ret r
spec:
    requires
        data.wf(), nbins > 0, sample_weight@.len() == data.rows, pos_weights(sample_weight@),
        forall|i: int| 0 <= i < data.data@.len() ==> val_ok(#[trigger] data.data@[i], missing),
        forall|i: int| 0 <= i < data.data@.len() ==> is_miss(#[trigger] data.data@[i], missing) || ext_lt(data.data@[i].e(), F64::max_().e()),
        data.cols * data.cols * 65536 <= usize::MAX,
    ensures
        r is Ok,
        ({ let b = r->Ok_0;
           &&& b.cuts.wf() && b.cuts.cols == data.cols && b.nunique@.len() == data.cols && b.binned_data@.len() == data.data@.len()
           &&& forall|j: int| 0 <= j < data.cols ==> col_binned(data.col(j), missing, #[trigger] b.cuts.col(j)) && b.nunique@[j] == b.cuts.col(j).len()
           &&& forall|i: int| 0 <= i < data.data@.len() ==> ({
                let v = data.data@[i]; let c = b.cuts.col(i / (data.rows as int));
                &&& (#[trigger] b.binned_data@[i] == 0) == is_miss(v, missing)
                &&& !is_miss(v, missing) ==> is_bin(c, v, b.binned_data@[i] as int) && b.binned_data@[i] < c.len() }) }),
start:
    broadcast use ideal_arith;
loop 1:
    invariant
        nbins > 0, nbins_.fin(), nbins_.v() == nbins as real, pcts@.len() == i,
        forall|k: int| 0 <= k < i ==> (#[trigger] pcts@[k]).fin() && pcts@[k].v() == (k as real) / (nbins as real),
loop 1 start:
    broadcast use ideal_arith;
before "let mut cuts":
    proof {
        let nb = nbins as real;
        assert(pcts_ok(pcts@)) by {
            assert forall|k: int| 0 <= k < pcts@.len() implies (#[trigger] pcts@[k]).fin() && 0real <= pcts@[k].v() <= 1real by {
                let a = k as real;
                assert(0real <= a / nb <= 1real) by (nonlinear_arith) requires 0real <= a <= nb, nb > 0real;
            }
            assert forall|k: int, l: int| 0 <= k < l < pcts@.len() implies (#[trigger] pcts@[k]).v() <= (#[trigger] pcts@[l]).v() by {
                let a = k as real; let b = l as real;
                assert(a / nb <= b / nb) by (nonlinear_arith) requires a <= b, nb > 0real;
            }
        }
        assert(pcts@[0].v() == 0real) by { assert(0real / nb == 0real) by (nonlinear_arith) requires nb > 0real; }
    }
loop 2:
    invariant
        data.wf(), nbins > 0, sample_weight@.len() == data.rows, pos_weights(sample_weight@),
        pcts_ok(pcts@), pcts@[0].v() == 0real, pcts@.len() <= u16::MAX,
        forall|k: int| 0 <= k < data.data@.len() ==> val_ok(#[trigger] data.data@[k], missing),
        forall|k: int| 0 <= k < data.data@.len() ==> is_miss(#[trigger] data.data@[k], missing) || ext_lt(data.data@[k].e(), F64::max_().e()),
        data.cols * data.cols * 65536 <= usize::MAX,
        cuts.wf(), cuts.cols == i, nunique@.len() == i, cuts.data@.len() <= i * 65536,
        forall|j: int| 0 <= j < i ==> col_binned(data.col(j), missing, #[trigger] cuts.col(j)) && nunique@[j] == cuts.col(j).len(),
loop 2 start:
    broadcast use lemma_kept;
    let ghost c0 = cuts;
    let ghost d = data.col(i as int);
    proof {
        assert forall|k: int| 0 <= k < d.len() implies val_ok(#[trigger] d[k], missing) && (is_miss(d[k], missing) || ext_lt(d[k].e(), F64::max_().e())) by {
            assert(0 <= k + i * data.rows < data.data@.len()) by (nonlinear_arith) requires 0 <= k < data.rows, i < data.cols, data.data@.len() == data.rows * data.cols;
            assert(d[k] == data.data@[k + i * data.rows]);
        }
    }
closure 1:
    |p__: &(&F64, &F64)| -> (o: bool) requires val_ok(*p__.0, missing), ensures o == !is_miss(*p__.0, missing)
before "let mut col_cuts":
    proof {
        assert forall|k: int| 0 <= k < no_miss@.len() implies #[trigger] comes_from(d, sample_weight@, missing, no_miss@[k], w@[k]) by { }
        assert forall|k: int| 0 <= k < d.len() && !is_miss(#[trigger] d[k], missing) implies no_miss@.contains(d[k]) by { assert(at(k)); }
        assert(non_missing(d, sample_weight@, missing, no_miss@, w@));
        assert forall|k: int| 0 <= k < w@.len() implies (#[trigger] w@[k]).fin() && w@[k].v() > 0real by { assert(comes_from(d, sample_weight@, missing, no_miss@[k], w@[k])); }
        assert forall|k: int| 0 <= k < no_miss@.len() implies !(#[trigger] no_miss@[k]).nan() by { assert(comes_from(d, sample_weight@, missing, no_miss@[k], w@[k])); }
    }
after "let mut col_cuts = percentiles_or_value(&no_miss, &w, &pcts);":
    proof { axiom_max64(); lemma_col_cuts(d, sample_weight@, missing, no_miss@, w@, col_cuts@); }
    let ghost cc = dedup(col_cuts@.push(F64::max_()));
    proof {
        assert(i * 65536 + 65536 <= data.cols * data.cols * 65536) by (nonlinear_arith) requires 0 <= i < data.cols;
        assert(cuts.ends@.len() > 0 ==> cuts.ends@.last() == cuts.data@.len());
        assert(cc.len() <= 65536);
    }
loop 2 end:
    proof {
        assert(cuts.data@ == c0.data@ + cc);
        assert(cuts.ends@ == c0.ends@.push((c0.data@.len() + cc.len()) as usize));
        assert(cuts.col(i as int) =~= cc);
        assert forall|j: int| 0 <= j < i + 1 implies col_binned(data.col(j), missing, #[trigger] cuts.col(j)) && nunique@[j] == cuts.col(j).len() by {
            if j < i { assert(cuts.col(j) =~= c0.col(j)); }
        }
    }
before "let binned_data":
    proof {
        assert forall|j: int| 0 <= j < data.cols implies cuts_ok(#[trigger] cuts.col(j)) && cuts.col(j).len() <= 65536 && below_max(cuts.col(j)) by { }
    }
tail:
    proof {
        assert forall|k: int| 0 <= k < data.data@.len() implies ({
            let v = data.data@[k]; let c = cuts.col(k / (data.rows as int));
            &&& (#[trigger] binned_data@[k] == 0) == is_miss(v, missing)
            &&& !is_miss(v, missing) ==> is_bin(c, v, binned_data@[k] as int) && binned_data@[k] < c.len() }) by { lemma_cell(*data, missing, cuts, binned_data@[k], k); }
    }
replace "let mut pcts = Vec::new();": let mut pcts: Vec<F64> = Vec::new();
replace "let mut cuts = JaggedMatrix::new();": let mut cuts: JaggedMatrix<F64> = JaggedMatrix::new();
replace "let mut nunique = Vec::new();": let mut nunique: Vec<usize> = Vec::new();
*/
} fn main() {}
