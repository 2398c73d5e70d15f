// ================================================================ utils.rs : percentiles
pub open spec fn no_nan(s: Seq<F64>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).nan() }
pub open spec fn iota(n: nat) -> Seq<usize> { Seq::new(n, |i: int| i as usize) }
/// idx lists every position once, in increasing order of the values
pub open spec fn sorts(v: Seq<F64>, idx: Seq<usize>) -> bool {
    &&& idx.len() == v.len()
    &&& idx.to_multiset() == iota(v.len()).to_multiset()
    &&& forall|i: int| 0 <= i < idx.len() ==> #[trigger] idx[i] < v.len()
    &&& forall|i: int, j: int| 0 <= i < j < idx.len() ==> ext_le(v[#[trigger] idx[i] as int].e(), v[#[trigger] idx[j] as int].e())
}
/// p * total, kept from the solver's nonlinear arithmetic
#[verifier::opaque]
pub open spec fn share(p: real, total: real) -> real { p * total }
pub proof fn lemma_share_mono(p: real, q: real, total: real) requires p <= q, total >= 0real, ensures share(p, total) <= share(q, total),
{ reveal(share); assert(p * total <= q * total) by (nonlinear_arith) requires p <= q, total >= 0real; }
pub proof fn lemma_share_lt(p: real, q: real, total: real) requires p < q, total > 0real, ensures share(p, total) < share(q, total),
{ reveal(share); assert(p * total < q * total) by (nonlinear_arith) requires p < q, total > 0real; }
pub proof fn lemma_share_ends(total: real) ensures share(0real, total) == 0real, share(1real, total) == total,
{ reveal(share); assert(0real * total == 0real) by (nonlinear_arith); }
pub proof fn lemma_share_add(c: real, x: real, total: real) requires total > 0real, ensures share(c + x / total, total) == share(c, total) + x,
{ reveal(share); assert((c + x / total) * total == c * total + x) by (nonlinear_arith) requires total > 0real; }
/// weight of the first k positions
pub open spec fn mass(w: Seq<F64>, idx: Seq<usize>, k: int) -> real decreases k {
    if k <= 0 { 0real } else { mass(w, idx, k - 1) + w[idx[k - 1] as int].v() }
}
/// k is the first position whose cumulative share reaches pct
pub open spec fn reaches(w: Seq<F64>, idx: Seq<usize>, total: real, pct: real, k: int) -> bool {
    &&& 0 <= k < idx.len()
    &&& mass(w, idx, k + 1) >= share(pct, total)
    &&& k == 0 || mass(w, idx, k) < share(pct, total)
}
pub open spec fn pct_of(v: Seq<F64>, w: Seq<F64>, idx: Seq<usize>, total: real, pct: real, r: F64) -> bool {
    exists|k: int| #[trigger] reaches(w, idx, total, pct, k) && r.e() == v[idx[k] as int].e()
}
pub open spec fn pct_result(v: Seq<F64>, w: Seq<F64>, pcts: Seq<F64>, r: Seq<F64>, idx: Seq<usize>) -> bool {
    &&& sorts(v, idx)
    &&& r.len() == pcts.len()
    &&& forall|m: int| 0 <= m < r.len() ==> pct_of(v, w, idx, rsum(vals64(w)), pcts[m].v(), #[trigger] r[m])
}
pub open spec fn pcts_ok(p: Seq<F64>) -> bool {
    &&& p.len() > 0
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).fin() && 0real <= p[i].v() <= 1real
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).v() <= (#[trigger] p[j]).v()
}
pub open spec fn weights_ok(w: Seq<F64>) -> bool {
    all_fin64(w) && (forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).v() >= 0real) && rsum(vals64(w)) > 0real
}
pub proof fn lemma_mass_mono(w: Seq<F64>, idx: Seq<usize>, a: int, b: int)
    requires 0 <= a <= b <= idx.len(), forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).v() >= 0real,
        forall|i: int| 0 <= i < idx.len() ==> #[trigger] idx[i] < w.len(),
    ensures mass(w, idx, a) <= mass(w, idx, b),
    decreases b
{ if a < b { lemma_mass_mono(w, idx, a, b - 1); } }
pub open spec fn pick(w: Seq<F64>, idx: Seq<usize>) -> Seq<real> { Seq::new(idx.len(), |i: int| w[idx[i] as int].v()) }
pub proof fn lemma_mass_rsum(w: Seq<F64>, idx: Seq<usize>, k: int)
    requires 0 <= k <= idx.len(),
    ensures mass(w, idx, k) == rsum(pick(w, idx.subrange(0, k))),
    decreases k
{
    if k > 0 {
        lemma_mass_rsum(w, idx, k - 1);
        assert(pick(w, idx.subrange(0, k)).drop_last() =~= pick(w, idx.subrange(0, k - 1)));
    }
}
pub proof fn lemma_rsum_remove(s: Seq<real>, i: int)
    requires 0 <= i < s.len(),
    ensures rsum(s) == rsum(s.remove(i)) + s[i],
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else { lemma_rsum_remove(s.drop_last(), i); assert(s.remove(i).drop_last() =~= s.drop_last().remove(i)); }
}
pub proof fn lemma_pick_perm(w: Seq<F64>, a: Seq<usize>, b: Seq<usize>)
    requires a.to_multiset() == b.to_multiset(),
    ensures rsum(pick(w, a)) == rsum(pick(w, b)),
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = a.last();
        assert(a.to_multiset().count(x) > 0) by { assert(a.contains(x)); }
        assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        assert(a.drop_last() =~= a.remove(a.len() - 1));
        assert(a.drop_last().to_multiset() =~= b.remove(i).to_multiset());
        lemma_pick_perm(w, a.drop_last(), b.remove(i));
        lemma_rsum_remove(pick(w, b), i);
        assert(pick(w, b).remove(i) =~= pick(w, b.remove(i)));
        assert(pick(w, a).drop_last() =~= pick(w, a.drop_last()));
    } else {
        assert(a =~= b);
    }
}
pub proof fn lemma_mass_total(v: Seq<F64>, w: Seq<F64>, idx: Seq<usize>)
    requires sorts(v, idx), v.len() == w.len(), w.len() <= usize::MAX,
    ensures mass(w, idx, idx.len() as int) == rsum(vals64(w)),
{
    lemma_mass_rsum(w, idx, idx.len() as int);
    assert(idx.subrange(0, idx.len() as int) =~= idx);
    lemma_pick_perm(w, idx, iota(v.len()));
    assert(pick(w, iota(v.len())) =~= vals64(w));
}
/*@fn utils.rs :: percentiles
subst T=F64
std sort_unstable_by ::from_iter
rename vx_percentiles
ret r
spec:
    requires v@.len() == sample_weight@.len(), v@.len() > 0, no_nan(v@), weights_ok(sample_weight@), pcts_ok(percentiles@),
    ensures exists|idx: Seq<usize>| #[trigger] pct_result(v@, sample_weight@, percentiles@, r@, idx),
closure 1:
    |a: &usize, b: &usize| -> (o: Ordering) requires *a < v@.len(), *b < v@.len(), no_nan(v@), ensures Some(o) == ext_cmp(v@[*a as int].e(), v@[*b as int].e())
after ".collect();":
    proof { assert(idx@ =~= iota(v@.len())); }
after "unwrap());":
    let ghost sidx = idx@;
    proof {
        let n = v@.len();
        assert forall|i: int| 0 <= i < sidx.len() implies #[trigger] sidx[i] < n by {
            broadcast use vstd::seq_lib::group_to_multiset_ensures;
            assert(sidx.contains(sidx[i])); assert(sidx.to_multiset().count(sidx[i]) > 0);
            assert(iota(n).contains(sidx[i]));
        }
        assert forall|i: int, j: int| 0 <= i < j < sidx.len() implies ext_le(v@[#[trigger] sidx[i] as int].e(), v@[#[trigger] sidx[j] as int].e()) by {
        }
        assert(sorts(v@, sidx));
    }
after "fast_sum(sample_weight);":
    broadcast use ideal_arith;
    let ghost total = rsum(vals64(sample_weight@));
    let ghost wts = sample_weight@;
    proof { lemma_share_ends(total); }
loop 1 iter it:
    invariant
        v@.len() == sample_weight@.len(), v@.len() > 0, no_nan(v@), weights_ok(sample_weight@), pcts_ok(percentiles@),
        idx@ == sidx, sorts(v@, sidx), wts == sample_weight@, total == rsum(vals64(wts)), total_values.fin(), total_values.v() == total,
        it.seq().len() == sidx.len(), forall|k: int| 0 <= k < sidx.len() ==> *(#[trigger] it.seq()[k]) == sidx[k],
        cuml_pct.fin(), share(cuml_pct.v(), total) == mass(wts, sidx, it.index@),
        p@.len() < percentiles@.len(), current_pct == percentiles@[p@.len() as int],
        pcts@.len() == percentiles@.len() - p@.len() - 1,
        forall|k: int| 0 <= k < pcts@.len() ==> *(#[trigger] pcts@[k]) == percentiles@[p@.len() as int + 1 + k],
        forall|m: int| 0 <= m < p@.len() ==> pct_of(v@, wts, sidx, total, percentiles@[m].v(), #[trigger] p@[m]),
        it.index@ == 0 || mass(wts, sidx, it.index@) < share(current_pct.v(), total),
loop 1 start:
    broadcast use ideal_arith;
    let ghost k0 = it.index@;
    let ghost c0 = cuml_pct.v();
    proof {
        assert(*i == sidx[k0]);
        let x = wts[sidx[k0] as int].v();
        lemma_share_add(c0, x, total);
    }
loop 2:
    invariant
        v@.len() == sample_weight@.len(), no_nan(v@), pcts_ok(percentiles@), weights_ok(wts),
        sorts(v@, sidx), wts == sample_weight@, total == rsum(vals64(wts)), 0 <= k0 < sidx.len(), total > 0real,
        current_value.e() == v@[sidx[k0] as int].e(),
        cuml_pct.fin(), share(cuml_pct.v(), total) == mass(wts, sidx, k0 + 1),
        p@.len() < percentiles@.len(), current_pct == percentiles@[p@.len() as int],
        pcts@.len() == percentiles@.len() - p@.len() - 1,
        forall|k: int| 0 <= k < pcts@.len() ==> *(#[trigger] pcts@[k]) == percentiles@[p@.len() as int + 1 + k],
        forall|m: int| 0 <= m < p@.len() ==> pct_of(v@, wts, sidx, total, percentiles@[m].v(), #[trigger] p@[m]),
        k0 == 0 || mass(wts, sidx, k0) < share(current_pct.v(), total),
    decreases percentiles@.len() - p@.len(),
loop 2 start:
    proof {
        let c = current_pct.v();
        lemma_share_mono(c, cuml_pct.v(), total);
        assert(reaches(wts, sidx, total, c, k0));
        if p@.len() + 1 < percentiles@.len() {
            let d = percentiles@[p@.len() as int + 1].v();
            lemma_share_mono(c, d, total);
        }
    }
replace "return p": { proof { assert(p@.len() == percentiles@.len()); assert(pct_result(v@, sample_weight@, percentiles@, p@, sidx)); } return p }
loop 1 end:
    proof {
        let c = current_pct.v();
        lemma_share_lt(cuml_pct.v(), c, total);
    }
before "while p.len()":
    proof {
        lemma_mass_total(v@, wts, sidx);
        let c = current_pct.v();
        lemma_share_mono(c, 1real, total); lemma_share_ends(total);
        assert(false);
    }
loop 3:
    invariant false,
    decreases percentiles@.len() - p@.len(),
*/
