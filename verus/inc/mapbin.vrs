// ================================================================ utils.rs : map_bin
/// cuts are sorted and contain no NaN
pub open spec fn cuts_ok(x: Seq<F64>) -> bool {
    &&& forall|i: int| 0 <= i < x.len() ==> !(#[trigger] x[i]).nan()
    &&& forall|i: int, j: int| 0 <= i < j < x.len() ==> ext_lt(#[trigger] x[i].e(), #[trigger] x[j].e())
}
/// b is the number of cuts that are not larger than v
pub open spec fn is_bin(x: Seq<F64>, v: F64, b: int) -> bool {
    &&& 0 <= b <= x.len()
    &&& forall|i: int| 0 <= i < b ==> ext_le(#[trigger] x[i].e(), v.e())
    &&& forall|i: int| b <= i < x.len() ==> ext_lt(v.e(), #[trigger] x[i].e())
}
pub open spec fn missing_bin(v: F64, missing: F64) -> bool { v.nan() || ext_eq(v.e(), missing.e()) }
/*@fn utils.rs :: map_bin
subst T=F64
ret r
spec:
    requires cuts_ok(x@), x@.len() < usize::MAX / 2,
    ensures
        missing_bin(*v, *missing) ==> r == Some(0u16),
        !missing_bin(*v, *missing) ==> (match r { Some(b) => is_bin(x@, *v, b as int), None => x@.len() > u16::MAX && ext_le(x@[u16::MAX as int].e(), v.e()) }),
loop 1:
    invariant
        cuts_ok(x@), x@.len() < usize::MAX / 2, !v.nan(), 0 <= low <= high <= x@.len(),
        forall|i: int| 0 <= i < low ==> ext_le(#[trigger] x@[i].e(), v.e()),
        forall|i: int| high <= i < x@.len() ==> ext_lt(v.e(), #[trigger] x@[i].e()),
    decreases high - low,
*/
/// comparing bins is comparing values: v < x[k]  iff  bin(v) < k + 1 = bin(x[k])
pub proof fn bin_compare(x: Seq<F64>, v: F64, b: int, k: int)
    requires cuts_ok(x), is_bin(x, v, b), 0 <= k < x.len(), !v.nan(),
    ensures b < k + 1 <==> ext_lt(v.e(), x[k].e()), is_bin(x, x[k], k + 1),
{
    if b >= k + 1 { assert(ext_le(x[k].e(), v.e())); }
}
/// the bin is unique, so equal values have equal bins, and bins are monotone
pub proof fn bin_monotone(x: Seq<F64>, v: F64, w: F64, b: int, c: int)
    requires cuts_ok(x), is_bin(x, v, b), is_bin(x, w, c), ext_le(v.e(), w.e()),
    ensures b <= c,
{
    if c < b { assert(ext_le(x[c].e(), v.e())); assert(ext_lt(w.e(), x[c].e())); }
}
