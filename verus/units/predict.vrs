/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/matrix.vrs*/
/*@include ../inc/rowmajor.vrs*/
/*@include ../inc/tree.vrs*/
/*@include ../inc/treepredict.vrs*/
/*@include ../inc/booster_types.vrs*/
/*@include ../inc/used.vrs*/
/// base score plus, tree after tree, the weight of the leaf the row falls in
pub open spec fn ensemble(trees: Seq<Tree>, row: Seq<F64>, missing: F64, base: F64) -> F64
    decreases trees.len()
{
    if trees.len() == 0 { base } else { ensemble(trees.drop_last(), row, missing, base).add_(trees.last().value(row, missing)) }
}
impl GradientBooster {
    pub open spec fn model_ok(&self, data: &Matrix<F64>) -> bool {
        &&& self.n_used() <= self.trees@.len()
        &&& data.wf() && data.index_ok()
        &&& data.index@ == Seq::new(data.rows as nat, |i: int| i as usize)
        &&& forall|k: int| 0 <= k < self.trees@.len() ==> (#[trigger] self.trees@[k]).wf() && data_ok(data, self.trees@[k], self.missing)
    }
/*@fn gradientbooster.rs :: GradientBooster :: predict
ret r
spec:
    requires self.model_ok(data),
    ensures r@.len() == data.rows,
       forall|i: int| 0 <= i < data.rows ==> #[trigger] r@[i] == ensemble(self.used(), data.row(i), self.missing, self.base_score),
loop 1 iter it:
    invariant
        self.model_ok(data), it.seq().len() == self.used().len(),
        forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == #[trigger] self.used()[k],
        init_preds@.len() == data.rows,
        forall|i: int| 0 <= i < data.rows ==> #[trigger] init_preds@[i] == ensemble(self.used().subrange(0, it.index@), data.row(i), self.missing, self.base_score),
loop 1 start:
    let ghost prev = init_preds@;
    let ghost n = it.index@;
    proof { assert(*tree == self.used()[n]); assert(*tree == self.trees@[n]); }
loop 1 end:
    proof {
        assert(self.used().subrange(0, n + 1).drop_last() =~= self.used().subrange(0, n));
        assert(self.used().subrange(0, n + 1).last() == *tree);
        assert forall|i: int| 0 <= i < data.rows implies #[trigger] init_preds@[i] == ensemble(self.used().subrange(0, n + 1), data.row(i), self.missing, self.base_score) by {
            assert(data.index@[i] == i);
            let x = z_s[i]; assert(*final(x.0) == prev[i].add_(tree.value(data.row(i), self.missing)));
            assert(init_preds@[i] == prev[i].add_(tree.value(data.row(i), self.missing)));
        }
    }
loop 2 hoist z iter jt:
    invariant
        data.rows == prev.len(), data.index@.len() == data.rows, 
        self.model_ok(data), *tree == self.trees@[n],
        jt.seq().len() == data.rows, jt.seq() == z_s, n < self.trees@.len(),
        forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]).0 == prev[i],
        forall|i: int| 0 <= i < jt.seq().len() ==> (#[trigger] jt.seq()[i]).1 == tree.value(data.row(data.index@[i] as int), self.missing),
        forall|i: int| 0 <= i < jt.index@ ==> *final((#[trigger] jt.seq()[i]).0) == prev[i].add_(tree.value(data.row(i), self.missing)),
tail:
    proof { assert(self.used().subrange(0, self.used().len() as int) =~= self.used()); }
*/
}
} fn main() {}
