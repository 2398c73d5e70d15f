/// the data has the features of the tree and no stray NaN
pub open spec fn data_ok(d: &Matrix<F64>, t: Tree, missing: F64) -> bool {
    d.wf() && d.index_ok() && t.feat_ok(d.cols as int)
    && forall|i: int| 0 <= i < d.rows ==> row_ok(#[trigger] d.row(i), missing)
}
impl Tree {
/*@fn tree.rs :: Tree :: predict_leaf
ret r
spec:
    requires self.wf(), data_ok(data, *self, *missing), row < data.rows,
    ensures *r == self.nodes@[self.leaf(data.row(row as int), *missing)], r.is_leaf,
       r.num == self.leaf(data.row(row as int), *missing),
loop 1:
    invariant self.wf(), data_ok(data, *self, *missing), row < data.rows,
        0 <= node_idx < self.nodes@.len(),
        self.route(data.row(row as int), *missing, node_idx as int) == self.leaf(data.row(row as int), *missing),
    decreases self.nodes@.len() - node_idx,
loop 1 start:
    proof {
        lemma_route_step(*self, data.row(row as int), *missing, node_idx as int);
        assert(node_wf(self.nodes@[node_idx as int], node_idx as int, self.nodes@.len() as int));
        assert(row_ok(data.row(row as int), *missing));
        let sf = self.nodes@[node_idx as int].split_feature;
        if !self.nodes@[node_idx as int].is_leaf { assert(val_ok(data.row(row as int)[sf as int], *missing)); }
    }
*/
/*@fn tree.rs :: Tree :: predict_row_from_row_slice
ret r
spec:
    requires self.wf(), self.feat_ok(row@.len() as int), row_ok(row@, *missing),
    ensures r == self.value(row@, *missing),
loop 1:
    invariant self.wf(), self.feat_ok(row@.len() as int), row_ok(row@, *missing),
        0 <= node_idx < self.nodes@.len(),
        self.route(row@, *missing, node_idx as int) == self.leaf(row@, *missing),
    decreases self.nodes@.len() - node_idx,
loop 1 start:
    proof {
        lemma_route_step(*self, row@, *missing, node_idx as int);
        let sf = self.nodes@[node_idx as int].split_feature;
        if !self.nodes@[node_idx as int].is_leaf { assert(val_ok(row@[sf as int], *missing)); }
    }
*/
    /// what predicting with one tree means: row by row, in the order of the index, the weight of the leaf
    pub open spec fn predicted(&self, data: &Matrix<F64>, missing: F64, r: Seq<F64>) -> bool {
        r.len() == data.index@.len()
        && forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == self.value(data.row(data.index@[k] as int), missing)
    }
/*@fn tree.rs :: Tree :: predict_single_threaded
ret r
spec:
    requires self.wf(), data_ok(data, *self, *missing),
    ensures self.predicted(data, *missing, r@),
closure 1:
    |i: &usize| -> (o: F64) requires *i < data.rows, self.wf(), data_ok(data, *self, *missing), ensures o == self.value(data.row(*i as int), *missing)
*/
/*@fn tree.rs :: Tree :: predict_parallel
ret r
spec:
    requires self.wf(), data_ok(data, *self, *missing),
    ensures self.predicted(data, *missing, r@),
closure 1:
    |i: &usize| -> (o: F64) requires *i < data.rows, self.wf(), data_ok(data, *self, *missing), ensures o == self.value(data.row(*i as int), *missing)
*/
/*@fn tree.rs :: Tree :: predict
ret r
spec:
    requires self.wf(), data_ok(data, *self, *missing),
    ensures self.predicted(data, *missing, r@),
*/
/*@fn tree.rs :: Tree :: predict_leaf_indices
ret r
spec:
    requires self.wf(), data_ok(data, *self, *missing),
    ensures r@.len() == data.index@.len(),
       forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == self.leaf(data.row(data.index@[k] as int), *missing),
closure 1:
    |i: &usize| -> (o: usize) requires *i < data.rows, self.wf(), data_ok(data, *self, *missing), ensures o == self.leaf(data.row(*i as int), *missing)
*/
}
