/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/matrix.vrs*/
/*@include ../inc/rowmajor.vrs*/
/*@include ../inc/jagged.vrs*/
impl<T> JaggedMatrix<T> {
/*@fn data.rs :: JaggedMatrix :: get_col_mut
ret r
spec:
    requires old(self).wf(), col < old(self).cols,
    ensures
        (*r)@ == old(self).col(col as int),
        final(self).ends == old(self).ends, final(self).cols == old(self).cols, final(self).n_records == old(self).n_records,
        final(r)@.len() == r@.len() ==> final(self).wf() && final(self).col(col as int) == final(r)@
            && forall|j: int| 0 <= j < old(self).cols && j != col ==> #[trigger] final(self).col(j) == old(self).col(j),
*/
}
impl<T: Copy> JaggedMatrix<T> {
/*@fn data.rs :: JaggedMatrix :: from_vecs
ret r
spec:
    requires (vecs@.len() + 1) * total_len(vecs@) <= usize::MAX,
    ensures r.wf(), r.cols == vecs@.len(), forall|j: int| 0 <= j < vecs@.len() ==> #[trigger] r.col(j) == vecs@[j]@,
loop 1 iter it:
    invariant
        (vecs@.len() + 1) * total_len(vecs@) <= usize::MAX,
        it.seq().len() == vecs@.len(),
        forall|k: int| 0 <= k < vecs@.len() ==> *(#[trigger] it.seq()[k]) == vecs@[k],
        data@ == flat(vecs@.subrange(0, it.index@)),
        ends@.len() == it.index@,
        e == total_len(vecs@.subrange(0, it.index@)),
        n_records <= it.index@ * total_len(vecs@),
        forall|k: int| 0 <= k < it.index@ ==> #[trigger] ends@[k] == total_len(vecs@.subrange(0, k + 1)),
loop 1 start:
    let ghost n = it.index@;
    let ghost d0 = data@;
    proof {
        lemma_flat(vecs@, n);
        assert(*vec == vecs@[n]);
        lemma_flat_len(vecs@);
        assert((n + 1) * total_len(vecs@) == n * total_len(vecs@) + total_len(vecs@)) by (nonlinear_arith);
        assert((n + 1) * total_len(vecs@) <= (vecs@.len() + 1) * total_len(vecs@)) by (nonlinear_arith) requires n < vecs@.len(), total_len(vecs@) >= 0;
        assert(total_len(vecs@) <= (vecs@.len() + 1) * total_len(vecs@)) by (nonlinear_arith) requires total_len(vecs@) >= 0, vecs@.len() >= 0;
        assert(vec@.subrange(0, 0) =~= Seq::<T>::empty());
    }
loop 1 end:
    proof {
        assert(vec@.subrange(0, vec@.len() as int) =~= vec@);
        assert(vecs@.subrange(0, n + 1).drop_last() =~= vecs@.subrange(0, n));
    }
loop 2 iter jt:
    invariant
        jt.seq().len() == vec@.len(),
        forall|k: int| 0 <= k < vec@.len() ==> *(#[trigger] jt.seq()[k]) == vec@[k],
        data@ == d0 + vec@.subrange(0, jt.index@),
loop 2 end:
    proof { assert(vec@.subrange(0, jt.index@ + 1) =~= vec@.subrange(0, jt.index@).push(*v)); assert(data@ =~= d0 + vec@.subrange(0, jt.index@ + 1)); }
tail:
    proof {
        assert(vecs@.subrange(0, vecs@.len() as int) =~= vecs@);
        lemma_flat_len(vecs@);
        assert forall|i: int, j: int| 0 <= i <= j < r.ends@.len() implies #[trigger] r.ends@[i] <= #[trigger] r.ends@[j] by { lemma_total_mono(vecs@, i + 1, j + 1); }
        assert forall|j: int| 0 <= j < vecs@.len() implies #[trigger] r.col(j) == vecs@[j]@ by { lemma_flat(vecs@, j); if j == 0 { assert(total_len(vecs@.subrange(0, 0)) == 0); } }
        if vecs@.len() == 0 { assert(r.data@.len() == 0); }
    }
*/
}
pub proof fn lemma_total_mono<T>(vs: Seq<Vec<T>>, i: int, j: int)
    requires 0 <= i <= j <= vs.len(),
    ensures total_len(vs.subrange(0, i)) <= total_len(vs.subrange(0, j)),
    decreases j - i
{
    if i < j { lemma_flat(vs, i); lemma_total_mono(vs, i + 1, j); }
}
} fn main() {}
