// ================================================================ data.rs : Matrix (column major view)
/*@struct data.rs :: Matrix */
impl<'a, T> Matrix<'a, T> {
    /// representation invariant of a column major matrix
    pub open spec fn wf(&self) -> bool {
        &&& self.stride1 == self.rows
        &&& self.stride2 == 1
        &&& self.data@.len() == self.rows * self.cols
        &&& self.data@.len() <= usize::MAX
    }
    /// every row index handed out by the matrix exists
    pub open spec fn index_ok(&self) -> bool {
        forall|k: int| 0 <= k < self.index@.len() ==> #[trigger] self.index@[k] < self.rows
    }
    /// the abstract value: cell (i, j)
    pub open spec fn at(&self, i: int, j: int) -> T { self.data@[i + j * self.rows] }
    /// the abstract row i
    pub open spec fn row(&self, i: int) -> Seq<T> { Seq::new(self.cols as nat, |j: int| self.at(i, j)) }
    pub open spec fn col(&self, j: int) -> Seq<T> { Seq::new(self.rows as nat, |i: int| self.at(i, j)) }
/*@fn data.rs :: Matrix :: new
ret r
spec:
    requires data@.len() == rows * cols, data@.len() <= usize::MAX,
    ensures r.wf(), r.index_ok(), r.rows == rows, r.cols == cols, r.data@ == data@,
        r.index@ == Seq::new(rows as nat, |i: int| i as usize),
*/
/*@fn data.rs :: Matrix :: item_index
ret r
spec:
    requires self.wf(), i <= self.rows, j < self.cols,
    ensures r == i + j * self.rows, r <= self.data@.len(), i < self.rows ==> r < self.data@.len(),
start:
    proof {
        assert(self.stride2 * i == i) by (nonlinear_arith) requires self.stride2 == 1;
        assert(j * self.stride1 == j * self.rows);
        assert(i + j * self.rows <= self.rows * self.cols && (i < self.rows ==> i + j * self.rows < self.rows * self.cols)) by (nonlinear_arith)
            requires i <= self.rows, j < self.cols;
        assert(0 <= j * self.rows) by (nonlinear_arith);
    }
*/
/*@fn data.rs :: Matrix :: get
ret r
spec:
    requires self.wf(), i < self.rows, j < self.cols,
    ensures *r == self.at(i as int, j as int),
*/
/*@fn data.rs :: Matrix :: get_col_slice
ret r
spec:
    requires self.wf(), start_row <= end_row <= self.rows, col < self.cols,
    ensures r@ == self.col(col as int).subrange(start_row as int, end_row as int),
tail:
    proof {
        assert(j == i + (end_row - start_row));
        assert(r@ =~= self.col(col as int).subrange(start_row as int, end_row as int));
    }
*/
/*@fn data.rs :: Matrix :: get_col
ret r
spec:
    requires self.wf(), col < self.cols,
    ensures r@ == self.col(col as int),
tail:
    proof { assert(r@ =~= self.col(col as int)); }
*/
/*@fn data.rs :: Matrix :: get_row_iter
std skip step_by
retty Vec<&T>
ret r
spec:
    requires self.wf(), row < self.rows,
    ensures r@.len() == self.cols, forall|j: int| 0 <= j < self.cols ==> *(#[trigger] r@[j]) == self.at(row as int, j),
start:
    proof {
        if self.cols > 0 {
            assert(self.rows * self.cols >= self.rows) by (nonlinear_arith) requires self.cols >= 1;
            assert(self.rows * self.cols - row + self.rows - 1 == self.cols * self.rows + (self.rows - 1 - row)) by (nonlinear_arith);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(self.rows * self.cols - row + self.rows - 1, self.rows as int, self.cols as int, self.rows - 1 - row);
        } else {
            assert(self.rows * self.cols == 0) by (nonlinear_arith) requires self.cols == 0;
            assert((0 + self.rows - 1) / (self.rows as int) == 0) by (nonlinear_arith) requires self.rows > 0;
        }
    }
tail:
    proof {
        assert forall|j: int| 0 <= j < self.cols implies *(#[trigger] r@[j]) == self.at(row as int, j) by {
            assert(0 <= j * self.rows && j * self.rows + row < self.rows * self.cols) by (nonlinear_arith)
                requires 0 <= j < self.cols, row < self.rows;
        }
    }
*/
}
impl<'a, T: Copy> Matrix<'a, T> {
/*@fn data.rs :: Matrix :: get_row
std copied collect
ret r
spec:
    requires self.wf(), row < self.rows,
    ensures r@ == self.row(row as int),
tail:
    proof { assert(r@ =~= self.row(row as int)); }
*/
}
