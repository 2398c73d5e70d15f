// ================================================================ grower.rs : the order in which pending nodes are expanded
/// the stand-in for BinaryHeap: a bag of elements, pop returns one that no other exceeds
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxHeap<T> { x: std::marker::PhantomData<T> }
pub trait VxKey: Sized { spec fn key_lt(a: Self, b: Self) -> bool; }
impl VxKey for SplittableNode {
    open spec fn key_lt(a: Self, b: Self) -> bool { !a.gain_value.nan() && !b.gain_value.nan() && ext_lt(a.gain_value.e(), b.gain_value.e()) }
}
impl<T: VxKey> VxHeap<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn push(&mut self, t: T) ensures final(self).view() == old(self).view().push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures
            old(self).view().len() == 0 ==> r is None,
            old(self).view().len() > 0 ==> r is Some && (exists|k: int| popped_at(old(self).view(), final(self).view(), k, r->0)) && forall|j: int| 0 <= j < old(self).view().len() ==> !T::key_lt(r->0, #[trigger] old(self).view()[j]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
}
pub open spec fn popped_at<T>(a: Seq<T>, b: Seq<T>, k: int, r: T) -> bool { 0 <= k < a.len() && a[k] == r && b == a.remove(k) }
impl SplittableNode {
/*@fn node.rs :: Ord for SplittableNode :: cmp
ret r
spec:
    ensures SplittableNode::key_lt(*self, *other) ==> r is Less, SplittableNode::key_lt(*other, *self) ==> r is Greater,
*/
}
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::is_empty] (q: &VecDeque<T, A>) -> (r: bool) ensures r == (q@.len() == 0);
/// what both orders promise
pub trait Grower {
    spec fn pend(&self) -> Seq<SplittableNode>;
    /// true: highest gain first, false: first in, first out
    spec fn by_gain(&self) -> bool;
    fn add_node(&mut self, node: SplittableNode)
        ensures final(self).pend() == old(self).pend().push(node), final(self).by_gain() == old(self).by_gain();
    fn get_next_node(&mut self) -> (r: SplittableNode)
        requires old(self).pend().len() > 0,
        ensures
            final(self).by_gain() == old(self).by_gain(),
            old(self).by_gain() ==> (exists|k: int| popped_at(old(self).pend(), final(self).pend(), k, r)) && forall|j: int| 0 <= j < old(self).pend().len() ==> !SplittableNode::key_lt(r, #[trigger] old(self).pend()[j]),
            !old(self).by_gain() ==> popped_at(old(self).pend(), final(self).pend(), 0, r);
    fn is_empty(&self) -> (r: bool)
        ensures r == (self.pend().len() == 0);
}
impl Grower for VxHeap<SplittableNode> {
    open spec fn pend(&self) -> Seq<SplittableNode> { self.view() }
    open spec fn by_gain(&self) -> bool { true }
/*@fn grower.rs :: Grower for BinaryHeap <SplittableNode> :: add_node
*/
/*@fn grower.rs :: Grower for BinaryHeap <SplittableNode> :: get_next_node
ret r
tail:
    proof {
        let k = choose|k: int| popped_at(old(self).view(), self.view(), k, r);
        assert(popped_at(old(self).view(), self.view(), k, r));
        assert(popped_at(old(self).pend(), self.pend(), k, r));
        assert forall|j: int| 0 <= j < old(self).pend().len() implies !SplittableNode::key_lt(r, #[trigger] old(self).pend()[j]) by { assert(!SplittableNode::key_lt(r, old(self).view()[j])); }
    }
*/
/*@fn grower.rs :: Grower for BinaryHeap <SplittableNode> :: is_empty
*/
}
impl Grower for VecDeque<SplittableNode> {
    open spec fn pend(&self) -> Seq<SplittableNode> { self@.reverse() }
    open spec fn by_gain(&self) -> bool { false }
/*@fn grower.rs :: Grower for VecDeque <SplittableNode> :: add_node
tail:
    proof { assert(self.pend() =~= old(self).pend().push(node)); }
*/
/*@fn grower.rs :: Grower for VecDeque <SplittableNode> :: get_next_node
ret r
tail:
    proof { assert(self.pend() =~= old(self).pend().remove(0)); }
*/
/*@fn grower.rs :: Grower for VecDeque <SplittableNode> :: is_empty
*/
}
