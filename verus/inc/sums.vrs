/*@include ../inc/rsum.vrs*/
// chunks of a slice
pub struct VxChunks<'a, T> { pub list: Vec<&'a [T]>, pub rem: &'a [T] }
impl<'a, T> VxChunks<'a, T> {
    pub fn remainder(&self) -> (r: &'a [T]) ensures r == self.rem { self.rem }
}
pub trait VxSlice<T> {
    spec fn vx_sl(&self) -> Seq<T>;
    fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: VxChunks<'a, T>)
        requires n > 0,
        ensures
            r.list@.len() == self.vx_sl().len() / n as nat,
            forall|k: int| 0 <= k < r.list@.len() ==> (#[trigger] r.list@[k])@ == self.vx_sl().subrange(k * n, (k + 1) * n),
            r.rem@ == self.vx_sl().subrange((self.vx_sl().len() / n as nat) * n, self.vx_sl().len() as int);
    fn vx_try_into<const N: usize>(&self) -> (r: Result<[T; N], ()>) where T: Copy
        ensures self.vx_sl().len() == N ==> r is Ok && r->Ok_0@ == self.vx_sl();
}
impl<T> VxSlice<T> for [T] {
    open spec fn vx_sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: VxChunks<'a, T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_try_into<const N: usize>(&self) -> (r: Result<[T; N], ()>) where T: Copy { unimplemented!() }
}
pub trait VxSum64: Sized { spec fn vx_s(&self) -> Seq<F64>; fn vx_sum(self) -> (r: F64) ensures all_fin64(self.vx_s()) ==> r.e() == Ext::Fin(rsum(vals64(self.vx_s()))); }
impl VxSum64 for Vec<F64> {
    open spec fn vx_s(&self) -> Seq<F64> { self@ }
    #[verifier::external_body]
    fn vx_sum(self) -> (r: F64) { unimplemented!() }
}
/*@const utils.rs :: LANES */
/*@fn utils.rs :: fast_sum
subst T=F64
std chunks_exact try_into copied sum take
ret r
spec:
    requires all_fin64(values@),
    ensures r.e() == Ext::Fin(rsum(vals64(values@))),
start:
    broadcast use ideal_arith;
    let ghost vs = vals64(values@);
    proof { assert(vs.subrange(0, 0) =~= Seq::<real>::empty()); }
replace "for chunk in chunks": for chunk in it: chunks.list
loop 1:
    invariant
        all_fin64(values@), vs == vals64(values@), LANES == 16,
        it.seq() == chunks.list@,
        chunks.list@.len() == values@.len() / 16,
        forall|k: int| 0 <= k < chunks.list@.len() ==> (#[trigger] chunks.list@[k])@ == values@.subrange(k * 16, (k + 1) * 16),
        all_fin64(acc@), acc@.len() == 16,
        rsum(vals64(acc@)) == rsum(vs.subrange(0, it.index@ * 16)),
loop 1 start:
    let ghost k0 = it.index@;
    let ghost acc0 = acc@;
    proof { assert(chunk@ == values@.subrange(k0 * 16, (k0 + 1) * 16)); assert(chunk@.len() == 16); }
    let ghost ch = chunk@;
loop 1 end:
    proof {
        assert(vals64(ch).subrange(0, 16) =~= vals64(ch));
        assert(vs.subrange(0, k0 * 16) + vals64(ch) =~= vs.subrange(0, (k0 + 1) * 16));
        lemma_rsum_cat(vs.subrange(0, k0 * 16), vals64(ch));
    }
loop 2:
    invariant
        all_fin64(acc@), acc@.len() == 16, LANES == 16, chunk@ == ch, ch.len() == 16, all_fin64(ch),
        rsum(vals64(acc@)) == rsum(vals64(acc0)) + rsum(vals64(ch).subrange(0, i as int)),
loop 2 start:
    broadcast use ideal_arith;
    let ghost a1 = acc@;
loop 2 end:
    proof {
        lemma_rsum_update(vals64(a1), i as int, a1[i as int].v() + ch[i as int].v());
        assert(vals64(acc@) =~= vals64(a1).update(i as int, a1[i as int].v() + ch[i as int].v()));
        assert(vals64(ch).subrange(0, i + 1).drop_last() =~= vals64(ch).subrange(0, i as int));
    }
loop 3 iter jt:
    invariant
        sum@.len() == 16, all_fin64(sum@), jt.seq().len() == 16,
        forall|k: int| 0 <= k < 16 ==> *(#[trigger] jt.seq()[k]) == sum@[k],
        reduced.fin(), reduced.v() == rsum(vals64(sum@).subrange(0, jt.index@)),
loop 3 start:
    broadcast use ideal_arith;
    proof { assert(vals64(sum@).subrange(0, jt.index@ + 1).drop_last() =~= vals64(sum@).subrange(0, jt.index@)); }
after "[F64::ZERO(); LANES];":
    proof { lemma_rsum_zero(vals64(acc@)); }
after "chunks.remainder();":
    let ghost rem = remainder@;
    proof { assert(hint(rem)); }
    let ghost nch = chunks.list@.len() as int;
tail:
    proof {
        assert(vals64(sum@).subrange(0, 16) =~= vals64(sum@));
        assert(vs =~= vs.subrange(0, nch * 16) + vals64(rem));
        lemma_rsum_cat(vs.subrange(0, nch * 16), vals64(rem));
    }
*/
/*@fn utils.rs :: fast_f64_sum
lit f64
std chunks_exact try_into take
ret r
spec:
    requires all_fin32(values@),
    ensures r.e() == Ext::Fin(rsum(vals32(values@))),
start:
    broadcast use ideal_arith;
    let ghost vs = vals32(values@);
    proof { assert(vs.subrange(0, 0) =~= Seq::<real>::empty()); }
replace "for chunk in chunks": for chunk in it: chunks.list
loop 1:
    invariant
        all_fin32(values@), vs == vals32(values@), LANES == 16,
        it.seq() == chunks.list@,
        chunks.list@.len() == values@.len() / 16,
        forall|k: int| 0 <= k < chunks.list@.len() ==> (#[trigger] chunks.list@[k])@ == values@.subrange(k * 16, (k + 1) * 16),
        all_fin64(acc@), acc@.len() == 16,
        rsum(vals64(acc@)) == rsum(vs.subrange(0, it.index@ * 16)),
loop 1 start:
    let ghost k0 = it.index@;
    let ghost acc0 = acc@;
    proof { assert(chunk@ == values@.subrange(k0 * 16, (k0 + 1) * 16)); assert(chunk@.len() == 16); }
    let ghost ch = chunk@;
loop 1 end:
    proof {
        assert(vals32(ch).subrange(0, 16) =~= vals32(ch));
        assert(vs.subrange(0, k0 * 16) + vals32(ch) =~= vs.subrange(0, (k0 + 1) * 16));
        lemma_rsum_cat(vs.subrange(0, k0 * 16), vals32(ch));
    }
loop 2:
    invariant
        all_fin64(acc@), acc@.len() == 16, LANES == 16, chunk@ == ch, ch.len() == 16, all_fin32(ch),
        rsum(vals64(acc@)) == rsum(vals64(acc0)) + rsum(vals32(ch).subrange(0, i as int)),
loop 2 start:
    broadcast use ideal_arith;
    let ghost a1 = acc@;
loop 2 end:
    proof {
        lemma_rsum_update(vals64(a1), i as int, a1[i as int].v() + ch[i as int].v());
        assert(vals64(acc@) =~= vals64(a1).update(i as int, a1[i as int].v() + ch[i as int].v()));
        assert(vals32(ch).subrange(0, i + 1).drop_last() =~= vals32(ch).subrange(0, i as int));
    }
loop 4 iter jt:
    invariant
        sum@.len() == 16, all_fin64(sum@), jt.seq().len() == 16,
        forall|k: int| 0 <= k < 16 ==> *(#[trigger] jt.seq()[k]) == sum@[k],
        reduced.fin(), reduced.v() == rsum(vals64(sum@).subrange(0, jt.index@)),
loop 4 start:
    broadcast use ideal_arith;
    proof { assert(vals64(sum@).subrange(0, jt.index@ + 1).drop_last() =~= vals64(sum@).subrange(0, jt.index@)); }
loop 3 iter rt:
    invariant
        remainder@ == rem, rt.seq().len() == rem.len(), all_fin32(rem),
        forall|k: int| 0 <= k < rem.len() ==> *(#[trigger] rt.seq()[k]) == rem[k],
        acc.fin(), acc.v() == rsum(vals32(rem).subrange(0, rt.index@)),
loop 3 start:
    broadcast use ideal_arith;
    proof { assert(vals32(rem).subrange(0, rt.index@ + 1).drop_last() =~= vals32(rem).subrange(0, rt.index@)); }
after "[F64::ZERO(); LANES];":
    proof { lemma_rsum_zero(vals64(acc@)); }
after "chunks.remainder();":
    let ghost rem = remainder@;
    let ghost nch = chunks.list@.len() as int;
tail:
    proof {
        assert(vals64(sum@).subrange(0, 16) =~= vals64(sum@));
        assert(vals32(rem).subrange(0, rem.len() as int) =~= vals32(rem));
        assert(vs =~= vs.subrange(0, nch * 16) + vals32(rem));
        lemma_rsum_cat(vs.subrange(0, nch * 16), vals32(rem));
    }
*/
