// ================================================================ data.rs : JaggedMatrix
/*@struct data.rs :: JaggedMatrix */
pub open spec fn total_len<T>(vs: Seq<Vec<T>>) -> int decreases vs.len() {
    if vs.len() == 0 { 0 } else { total_len(vs.drop_last()) + vs.last()@.len() }
}
pub open spec fn flat<T>(vs: Seq<Vec<T>>) -> Seq<T> decreases vs.len() {
    if vs.len() == 0 { Seq::empty() } else { flat(vs.drop_last()) + vs.last()@ }
}
pub proof fn lemma_flat<T>(vs: Seq<Vec<T>>, j: int)
    requires 0 <= j < vs.len(),
    ensures
        flat(vs).len() == total_len(vs), total_len(vs.subrange(0, j)) >= 0,
        total_len(vs.subrange(0, j + 1)) == total_len(vs.subrange(0, j)) + vs[j]@.len(),
        total_len(vs.subrange(0, j + 1)) <= total_len(vs),
        flat(vs).subrange(total_len(vs.subrange(0, j)), total_len(vs.subrange(0, j + 1))) =~= vs[j]@,
    decreases vs.len()
{
    assert(vs.subrange(0, j + 1).drop_last() =~= vs.subrange(0, j));
    assert(vs.subrange(0, vs.len() as int) =~= vs);
    lemma_flat_len(vs);
    lemma_flat_len(vs.subrange(0, j));
    if j + 1 < vs.len() {
        let d = vs.drop_last();
        lemma_flat(d, j);
        assert(d.subrange(0, j + 1) =~= vs.subrange(0, j + 1));
        assert(d.subrange(0, j) =~= vs.subrange(0, j));
        let a = total_len(vs.subrange(0, j)); let b = total_len(vs.subrange(0, j + 1));
        assert(flat(vs).subrange(a, b) =~= flat(d).subrange(a, b));
    } else {
        assert(vs.drop_last() =~= vs.subrange(0, j));
        lemma_flat_len(vs.drop_last());
    }
}
pub proof fn lemma_flat_len<T>(vs: Seq<Vec<T>>)
    ensures flat(vs).len() == total_len(vs), total_len(vs) >= 0,
    decreases vs.len()
{ if vs.len() > 0 { lemma_flat_len(vs.drop_last()); } }
impl<T> JaggedMatrix<T> {
    pub open spec fn start(&self, j: int) -> int { if j == 0 { 0 } else { self.ends@[j - 1] as int } }
    pub open spec fn wf(&self) -> bool {
        &&& self.cols == self.ends@.len()
        &&& forall|i: int, j: int| 0 <= i <= j < self.ends@.len() ==> #[trigger] self.ends@[i] <= #[trigger] self.ends@[j]
        &&& self.ends@.len() > 0 ==> self.ends@.last() <= self.data@.len()
        &&& self.ends@.len() > 0 ==> self.ends@.last() == self.data@.len()
        &&& self.ends@.len() == 0 ==> self.data@.len() == 0
    }
    /// the abstract value: column j
    pub open spec fn col(&self, j: int) -> Seq<T> { self.data@.subrange(self.start(j), self.ends@[j] as int) }
/*@fn data.rs :: JaggedMatrix :: new
ret r
spec:
    ensures r.wf(), r.cols == 0,
*/
/*@fn data.rs :: JaggedMatrix :: get_col
ret r
spec:
    requires self.wf(), col < self.cols,
    ensures r@ == self.col(col as int),
*/
}
