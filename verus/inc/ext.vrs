// ================================================================ assumed contracts on the standard library
pub trait VxVec<T>: Sized {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_extend(&mut self, items: Vec<T>)
        ensures final(self).vx_seq() == old(self).vx_seq() + items@;
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, items: Vec<T>) { unimplemented!() }
}
pub trait VxGetMut<T> {
    spec fn vx_gs(&self) -> Seq<T>;
    fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures
            r is Some <==> i < old(self).vx_gs().len(),
            r is None ==> final(self).vx_gs() == old(self).vx_gs(),
            match r { Some(x) => *x == old(self).vx_gs()[i as int] && final(self).vx_gs() == old(self).vx_gs().update(i as int, *final(x)), None => true };
}
impl<T> VxGetMut<T> for Vec<T> {
    open spec fn vx_gs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() }
}
// iterator adapters: the iterator is represented by the vector of the items it yields
pub open spec fn every_kth<T>(s: Seq<T>, k: int) -> Seq<T> { Seq::new(((s.len() + k - 1) / k) as nat, |i: int| s[i * k]) }
/// names a sequence for the prover
pub open spec fn hint<T>(s: Seq<T>) -> bool { true }
pub trait VxSliceIter<'a, T>: Sized {
    #[verifier::prophetic]
    spec fn vx_rem(&self) -> Seq<&'a T>;
    fn vx_skip(self, n: usize) -> (r: Vec<&'a T>)
        ensures r@ == if n <= self.vx_rem().len() { self.vx_rem().subrange(n as int, self.vx_rem().len() as int) } else { Seq::empty() };
    fn vx_take(self, n: usize) -> (r: Vec<&'a T>)
        ensures r@ == if n <= self.vx_rem().len() { self.vx_rem().subrange(0, n as int) } else { self.vx_rem() };
    fn vx_copied(self) -> (r: Vec<T>) where T: Copy
        ensures r@ == Seq::new(self.vx_rem().len(), |i: int| *self.vx_rem()[i]),
            forall|s: Seq<T>| #[trigger] hint(s) && s.len() == self.vx_rem().len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == *(#[trigger] self.vx_rem()[i])) ==> r@ == s;
}
impl<'a, T> VxSliceIter<'a, T> for core::slice::Iter<'a, T> {
    #[verifier::prophetic]
    open spec fn vx_rem(&self) -> Seq<&'a T> { vstd::std_specs::iter::IteratorSpec::remaining(self) }
    #[verifier::external_body]
    fn vx_skip(self, n: usize) -> (r: Vec<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_take(self, n: usize) -> (r: Vec<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_copied(self) -> (r: Vec<T>) where T: Copy { unimplemented!() }
}
pub trait VxRefs<'a, T>: Sized {
    spec fn vx_refs(&self) -> Seq<&'a T>;
    fn vx_step_by(self, k: usize) -> (r: Vec<&'a T>)
        requires k > 0,
        ensures r@ == every_kth(self.vx_refs(), k as int);
    fn vx_copied(self) -> (r: Vec<T>) where T: Copy
        ensures r@ == Seq::new(self.vx_refs().len(), |i: int| *self.vx_refs()[i]),
            forall|i: int| 0 <= i < self.vx_refs().len() ==> r@[i] == *(#[trigger] self.vx_refs()[i]);
}
impl<'a, T> VxRefs<'a, T> for Vec<&'a T> {
    open spec fn vx_refs(&self) -> Seq<&'a T> { self@ }
    #[verifier::external_body]
    fn vx_step_by(self, k: usize) -> (r: Vec<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_copied(self) -> (r: Vec<T>) where T: Copy { unimplemented!() }
}
pub trait VxCollect: Sized { fn vx_collect(self) -> (r: Self) ensures r == self; }
impl<T> VxCollect for Vec<T> { fn vx_collect(self) -> (r: Self) { self } }
pub trait VxRangeMut<T> {
    spec fn vx_items(&self) -> Seq<T>;
    fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [T])
        requires a <= b <= old(self).vx_items().len(),
        ensures
            r@ == old(self).vx_items().subrange(a as int, b as int),
            final(r)@.len() == r@.len(),
            final(self).vx_items() == old(self).vx_items().subrange(0, a as int) + final(r)@ + old(self).vx_items().subrange(b as int, old(self).vx_items().len() as int);
}
impl<T> VxRangeMut<T> for Vec<T> {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [T]) { unimplemented!() }
}
impl<T> VxRangeMut<T> for [T] {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [T]) { unimplemented!() }
}
pub trait VxSort<T> {
    spec fn vx_s(&self) -> Seq<T>;
    /// sorting: a permutation, and no later element compares smaller (the comparison has to be a total preorder)
    fn vx_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|i: int, j: int| 0 <= i < old(self).vx_s().len() && 0 <= j < old(self).vx_s().len() ==> call_requires(f, (&#[trigger] old(self).vx_s()[i], &#[trigger] old(self).vx_s()[j])),
        ensures
            final(self).vx_s().len() == old(self).vx_s().len(),
            final(self).vx_s().to_multiset() == old(self).vx_s().to_multiset(),
            forall|i: int, j: int| 0 <= i < j < final(self).vx_s().len() ==> sorted_pair(f, #[trigger] final(self).vx_s()[i], #[trigger] final(self).vx_s()[j]);
}
pub open spec fn sorted_pair<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool {
    exists|o: Ordering| call_ensures(f, (&a, &b), o) && !(o is Greater)
}
impl<T> VxSort<T> for Vec<T> {
    open spec fn vx_s(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
}
pub trait VxOwned<T> { fn vx_to_owned(&self) -> (r: Vec<T>) where T: Copy; }
impl<T> VxOwned<T> for [T] {
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: Vec<T>) where T: Copy ensures r@ == self@ { unimplemented!() }
}
pub trait VxDeque<'a, T>: Sized {
    spec fn vx_d(&self) -> Seq<&'a T>;
    #[verifier::prophetic]
    spec fn vx_all(it: core::slice::Iter<'a, T>) -> Seq<&'a T>;
    fn vx_from_iter(it: core::slice::Iter<'a, T>) -> (r: Self) ensures r.vx_d() == Self::vx_all(it);
}
impl<'a, T> VxDeque<'a, T> for VecDeque<&'a T> {
    open spec fn vx_d(&self) -> Seq<&'a T> { self@ }
    #[verifier::prophetic]
    open spec fn vx_all(it: core::slice::Iter<'a, T>) -> Seq<&'a T> { vstd::std_specs::iter::IteratorSpec::remaining(&it) }
    #[verifier::external_body]
    fn vx_from_iter(it: core::slice::Iter<'a, T>) -> (r: Self) { unimplemented!() }
}
/// r lists, in order, the items of s for which f answers true
pub open spec fn kept<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, r: Seq<T>) -> bool decreases s.len() {
    if s.len() == 0 { r.len() == 0 } else {
        ||| call_ensures(f, (&s.last(),), true) && r.len() > 0 && r.last() == s.last() && kept(s.drop_last(), f, r.drop_last())
        ||| call_ensures(f, (&s.last(),), false) && kept(s.drop_last(), f, r)
    }
}
pub trait VxFilter: vstd::std_specs::iter::IteratorSpec + Sized {
    fn vx_filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: Vec<Self::Item>)
        requires forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (&#[trigger] self.remaining()[k],)),
        ensures kept(self.remaining(), f, r@);
}
impl<I: vstd::std_specs::iter::IteratorSpec> VxFilter for I {
    #[verifier::external_body]
    fn vx_filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: Vec<Self::Item>) { unimplemented!() }
}
pub trait VxUnzip<A, B>: Sized { fn vx_unzip(self) -> (r: (Vec<A>, Vec<B>)); }
impl<'a, 'b, A: Copy, B: Copy> VxUnzip<A, B> for Vec<(&'a A, &'b B)> {
    #[verifier::external_body]
    fn vx_unzip(self) -> (r: (Vec<A>, Vec<B>))
        ensures r.0@.len() == self@.len(), r.1@.len() == self@.len(),
            forall|i: int| #![trigger self@[i]] #![trigger r.0@[i]] #![trigger r.1@[i]] 0 <= i < self@.len() ==> r.0@[i] == *self@[i].0 && r.1@[i] == *self@[i].1,
    { unimplemented!() }
}
pub open spec fn usum(s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { 0 } else { usum(s.drop_last()) + s.last() } }
pub trait VxSumU: vstd::std_specs::iter::IteratorSpec + Sized { fn vx_sum(self) -> (r: usize); }
impl<'a> VxSumU for core::slice::Iter<'a, usize> {
    #[verifier::external_body]
    fn vx_sum(self) -> (r: usize) { unimplemented!() }
}
