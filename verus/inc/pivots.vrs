// ================================================================ utils.rs : partitioning the rows of a node
pub trait VxSwap<T> {
    spec fn vx_q(&self) -> Seq<T>;
    fn vx_swap(&mut self, a: usize, b: usize)
        requires a < old(self).vx_q().len(), b < old(self).vx_q().len(),
        ensures
            final(self).vx_q() == old(self).vx_q().update(a as int, old(self).vx_q()[b as int]).update(b as int, old(self).vx_q()[a as int]),
            final(self).vx_q().to_multiset() == old(self).vx_q().to_multiset();
}
impl<T> VxSwap<T> for [T] {
    open spec fn vx_q(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_swap(&mut self, a: usize, b: usize) { unimplemented!() }
}
/// the side of a split a binned value belongs to (bin 0: missing)
pub open spec fn goes_left(b: u16, split: u16, missing_right: bool) -> bool { if b == 0 { !missing_right } else { b < split } }
/// every row of the node has a bin
pub open spec fn rows_ok(index: Seq<usize>, feature: Seq<u16>) -> bool { forall|k: int| 0 <= k < index.len() ==> #[trigger] index[k] < feature.len() }
pub open spec fn bin_of(index: Seq<usize>, feature: Seq<u16>, k: int) -> u16 { feature[index[k] as int] }
/*@fn utils.rs :: missing_compare
ret r
spec:
    ensures goes_left(cmp_value, *split_value, missing_right) <==> r is Greater,
*/
/*@fn utils.rs :: pivot_on_split
std swap
ret r
spec:
    requires rows_ok(old(index)@, feature@),
    ensures
        // nothing lost, duplicated or invented
        final(index)@.to_multiset() == old(index)@.to_multiset(),
        final(index)@.len() == old(index)@.len(),
        rows_ok(final(index)@, feature@),
        // the exact boundary
        r <= final(index)@.len(),
        forall|k: int| #![trigger final(index)@[k]] 0 <= k < r ==> goes_left(bin_of(final(index)@, feature@, k), split_value, missing_right),
        forall|k: int| #![trigger final(index)@[k]] r <= k < final(index)@.len() ==> !goes_left(bin_of(final(index)@, feature@, k), split_value, missing_right),
loop 1:
    invariant
        index@.to_multiset() == old(index)@.to_multiset(),
        index@.len() == old(index)@.len(),
        rows_ok(index@, feature@),
        max_idx == index@.len() - 1,
        high <= max_idx, low <= high + 1, low <= max_idx,
        forall|k: int| #![trigger index@[k]] 0 <= k < low ==> goes_left(bin_of(index@, feature@, k), split_value, missing_right),
        forall|k: int| #![trigger index@[k]] high < k <= max_idx ==> !goes_left(bin_of(index@, feature@, k), split_value, missing_right),
        low >= high ==> low == max_idx || !goes_left(bin_of(index@, feature@, low as int), split_value, missing_right),
    decreases 2 * (high + 1 - low) + (if goes_left(bin_of(index@, feature@, low as int), split_value, missing_right) { 0int } else { 1int }),
loop 2:
    invariant
        index@.len() == old(index)@.len(),
        rows_ok(index@, feature@),
        max_idx == index@.len() - 1,
        high <= max_idx, low <= high + 1, low <= max_idx,
        forall|k: int| #![trigger index@[k]] 0 <= k < low ==> goes_left(bin_of(index@, feature@, k), split_value, missing_right),
        forall|k: int| #![trigger index@[k]] high < k <= max_idx ==> !goes_left(bin_of(index@, feature@, k), split_value, missing_right),
        low0 <= low,
    ensures
        low == max_idx || !goes_left(bin_of(index@, feature@, low as int), split_value, missing_right),
        low > low0 || !goes_left(bin_of(index@, feature@, low0 as int), split_value, missing_right) || low0 == max_idx,
    decreases max_idx - low,
loop 3:
    invariant
        index@.len() == old(index)@.len(),
        rows_ok(index@, feature@),
        max_idx == index@.len() - 1,
        high <= high0, high <= max_idx, low <= high + 1, low <= max_idx,
        forall|k: int| #![trigger index@[k]] high < k <= max_idx ==> !goes_left(bin_of(index@, feature@, k), split_value, missing_right),
    ensures
        high <= low || goes_left(bin_of(index@, feature@, high as int), split_value, missing_right),
    decreases high,
loop 1 start:
    let ghost low0 = low;
    let ghost high0 = high;
*/
/*@fn utils.rs :: pivot_on_split_exclude_missing
std swap
ret r
spec:
    requires rows_ok(old(index)@, feature@), split_value > 0,
    ensures
        final(index)@.to_multiset() == old(index)@.to_multiset(),
        final(index)@.len() == old(index)@.len(),
        rows_ok(final(index)@, feature@),
        r.0 <= r.1 <= final(index)@.len(),
        // the missing rows are exactly the first block, then the left side, then the right
        forall|k: int| #![trigger final(index)@[k]] 0 <= k < r.0 ==> bin_of(final(index)@, feature@, k) == 0,
        forall|k: int| #![trigger final(index)@[k]] r.0 <= k < r.1 ==> 0 < bin_of(final(index)@, feature@, k) < split_value,
        forall|k: int| #![trigger final(index)@[k]] r.1 <= k < final(index)@.len() ==> bin_of(final(index)@, feature@, k) >= split_value,
loop 1:
    invariant
        index@.to_multiset() == old(index)@.to_multiset(),
        index@.len() == old(index)@.len(),
        rows_ok(index@, feature@),
        max_idx == index@.len() - 1, split_value > 0,
        missing <= low, high <= max_idx, low <= high + 1, low <= max_idx,
        forall|k: int| #![trigger index@[k]] 0 <= k < missing ==> bin_of(index@, feature@, k) == 0,
        forall|k: int| #![trigger index@[k]] missing <= k < low ==> 0 < bin_of(index@, feature@, k) < split_value,
        forall|k: int| #![trigger index@[k]] high < k <= max_idx ==> bin_of(index@, feature@, k) >= split_value,
        low >= high ==> low == max_idx || bin_of(index@, feature@, low as int) >= split_value,
    decreases 2 * (high + 1 - low) + 2 * (index@.len() - missing) + (if bin_of(index@, feature@, low as int) < split_value { 0int } else { 1int }),
loop 2:
    invariant
        index@.to_multiset() == old(index)@.to_multiset(),
        index@.len() == old(index)@.len(),
        rows_ok(index@, feature@),
        max_idx == index@.len() - 1, split_value > 0,
        missing <= low, high <= max_idx, low <= high + 1, low <= max_idx,
        forall|k: int| #![trigger index@[k]] 0 <= k < missing ==> bin_of(index@, feature@, k) == 0,
        forall|k: int| #![trigger index@[k]] missing <= k < low ==> 0 < bin_of(index@, feature@, k) < split_value,
        forall|k: int| #![trigger index@[k]] high < k <= max_idx ==> bin_of(index@, feature@, k) >= split_value,
        low0 <= low, missing0 <= missing,
        low == low0 ==> index@ == index0 && missing == missing0,
    ensures
        low == max_idx || bin_of(index@, feature@, low as int) >= split_value,
        low == low0 ==> low0 == max_idx || bin_of(index0, feature@, low0 as int) >= split_value,
    decreases max_idx - low,
loop 3:
    invariant_except_break
        index@ == index1, missing == missing1, low == low1,
        low == max_idx || bin_of(index@, feature@, low as int) >= split_value,
    invariant
        index@.to_multiset() == old(index)@.to_multiset(),
        index@.len() == old(index)@.len(),
        rows_ok(index@, feature@),
        max_idx == index@.len() - 1, split_value > 0,
        missing <= low, high <= max_idx, low <= high + 1, low <= max_idx,
        forall|k: int| #![trigger index@[k]] 0 <= k < missing ==> bin_of(index@, feature@, k) == 0,
        forall|k: int| #![trigger index@[k]] missing <= k < low ==> 0 < bin_of(index@, feature@, k) < split_value,
        forall|k: int| #![trigger index@[k]] high < k <= max_idx ==> bin_of(index@, feature@, k) >= split_value,
        high <= high0,
    ensures
        low1 <= low, missing1 <= missing,
        missing == missing1 ==> index@ == index1 && low == low1,
        missing == missing1 && low < high ==> 0 < bin_of(index@, feature@, high as int) < split_value,
        low >= high ==> low == max_idx || bin_of(index@, feature@, low as int) >= split_value,
    decreases high,
loop 1 start:
    let ghost low0 = low;
    let ghost high0 = high;
    let ghost missing0 = missing;
    let ghost index0 = index@;
before "while high > low":
    let ghost low1 = low;
    let ghost missing1 = missing;
    let ghost index1 = index@;
*/
