// ================================================================ data.rs : RowMajorMatrix
/*@struct data.rs :: RowMajorMatrix */
impl<T> RowMajorMatrix<T> {
    pub open spec fn wf(&self) -> bool {
        self.stride1 == 1 && self.stride2 == self.cols && self.data@.len() == self.rows * self.cols
    }
    pub open spec fn at(&self, i: int, j: int) -> T { self.data@[i * self.cols + j] }
/*@fn data.rs :: RowMajorMatrix :: new
ret r
spec:
    requires data@.len() == rows * cols,
    ensures r.wf(), r.rows == rows, r.cols == cols, r.data@ == data@,
*/
/*@fn data.rs :: RowMajorMatrix :: item_index
ret r
spec:
    requires self.wf(), i < self.rows, j < self.cols, self.data@.len() <= usize::MAX,
    ensures r == i * self.cols + j, r < self.data@.len(),
start:
    proof {
        assert(self.stride2 * i == i * self.cols) by (nonlinear_arith) requires self.stride2 == self.cols;
        assert(j * self.stride1 == j) by (nonlinear_arith) requires self.stride1 == 1;
        assert(0 <= i * self.cols && i * self.cols + j < self.rows * self.cols) by (nonlinear_arith)
            requires i < self.rows, j < self.cols;
    }
*/
/*@fn data.rs :: RowMajorMatrix :: get
ret r
spec:
    requires self.wf(), i < self.rows, j < self.cols, self.data@.len() <= usize::MAX,
    ensures *r == self.at(i as int, j as int),
*/
/*@fn data.rs :: RowMajorMatrix :: append_row
std extend
spec:
    requires old(self).wf(), old(self).cols > 0, items@.len() % old(self).cols as nat == 0,
        old(self).rows + items@.len() <= usize::MAX,
    ensures final(self).wf(), final(self).cols == old(self).cols,
        final(self).rows == old(self).rows + items@.len() / old(self).cols as nat,
        final(self).data@ == old(self).data@ + items@,
start:
    proof {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(items@.len() as int, self.cols as int);
        vstd::arithmetic::mul::lemma_mul_is_distributive_add(self.cols as int, self.rows as int, items@.len() as int / self.cols as int);
        assert(self.rows * self.cols == self.cols * self.rows) by (nonlinear_arith);
        let k = items@.len() as int / self.cols as int;
        assert((self.rows + k) * self.cols == self.cols * self.rows + self.cols * k) by (nonlinear_arith);
        assert(k <= items@.len()) by (nonlinear_arith) requires items@.len() == self.cols * k, self.cols >= 1, k >= 0;
    }
*/
}
