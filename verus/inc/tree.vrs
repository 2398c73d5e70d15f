/*@include ../inc/missing.vrs*/
// ================================================================ node.rs / tree.rs : the tree a model is made of
/*@struct node.rs :: Node */
/*@struct tree.rs :: Tree */
/// the child a value is sent to
pub open spec fn child_of(n: Node, v: F64, missing: F64) -> usize {
    if is_miss(v, missing) { n.missing_node } else if ext_lt(v.e(), n.split_value.e()) { n.left_child } else { n.right_child }
}
impl Tree {
    /// well-formed: numbered by position, children after their parent
    pub open spec fn wf(&self) -> bool {
        &&& self.nodes@.len() > 0
        &&& forall|i: int| 0 <= i < self.nodes@.len() ==> node_wf(#[trigger] self.nodes@[i], i, self.nodes@.len() as int)
    }
    /// every feature a split reads exists
    pub open spec fn feat_ok(&self, cols: int) -> bool {
        forall|i: int| 0 <= i < self.nodes@.len() && !(#[trigger] self.nodes@[i]).is_leaf ==> self.nodes@[i].split_feature < cols
    }
    /// leaf reached from node i
    pub open spec fn route(&self, row: Seq<F64>, missing: F64, i: int) -> int
        decreases self.nodes@.len() - i
    {
        if self.wf() && 0 <= i < self.nodes@.len() && !self.nodes@[i].is_leaf {
            let n = self.nodes@[i];
            let c = child_of(n, row[n.split_feature as int], missing) as int;
            if i < c < self.nodes@.len() { self.route(row, missing, c) } else { i }
        } else { i }
    }
    pub open spec fn leaf(&self, row: Seq<F64>, missing: F64) -> int { self.route(row, missing, 0) }
    pub open spec fn value(&self, row: Seq<F64>, missing: F64) -> F64 { to64_(self.nodes@[self.leaf(row, missing)].weight_value) }
}
pub open spec fn node_wf(n: Node, i: int, len: int) -> bool {
    n.num == i && (!n.is_leaf ==> i < n.left_child < len && i < n.right_child < len && i < n.missing_node < len && n.left_child != n.right_child)
}
pub proof fn lemma_route_step(t: Tree, row: Seq<F64>, missing: F64, i: int)
    requires t.wf(), 0 <= i < t.nodes@.len(),
    ensures
        t.nodes@[i].is_leaf ==> t.route(row, missing, i) == i,
        !t.nodes@[i].is_leaf ==> ({
            let n = t.nodes@[i];
            let c = child_of(n, row[n.split_feature as int], missing) as int;
            i < c < t.nodes@.len() && t.route(row, missing, i) == t.route(row, missing, c)
        }),
{
    assert(node_wf(t.nodes@[i], i, t.nodes@.len() as int));
}
pub proof fn lemma_route_leaf(t: Tree, row: Seq<F64>, missing: F64, i: int)
    requires t.wf(), 0 <= i < t.nodes@.len(),
    ensures 0 <= t.route(row, missing, i) < t.nodes@.len(), t.nodes@[t.route(row, missing, i)].is_leaf,
    decreases t.nodes@.len() - i
{
    lemma_route_step(t, row, missing, i);
    if !t.nodes@[i].is_leaf {
        let n = t.nodes@[i];
        lemma_route_leaf(t, row, missing, child_of(n, row[n.split_feature as int], missing) as int);
    }
}
impl Node {
/*@fn node.rs :: Node :: get_child_idx
ret r
spec:
    requires val_ok(*v, *missing),
    ensures r == child_of(*self, *v, *missing),
*/
/*@fn node.rs :: Node :: has_missing_branch
ret r
spec:
    ensures r == (self.missing_node != self.right_child && self.missing_node != self.left_child),
*/
}
