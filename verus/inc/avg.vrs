// ================================================================ cover-weighted average of the leaves below a node
impl Tree {
    pub open spec fn cover_ok(&self) -> bool { forall|i: int| 0 <= i < self.nodes@.len() && !(#[trigger] self.nodes@[i]).is_leaf ==> self.nodes@[i].hessian_sum.v() != 0real }
    pub open spec fn avg(&self, i: int) -> real
        decreases self.nodes@.len() - i
    {
        if self.wf() && 0 <= i < self.nodes@.len() && !self.nodes@[i].is_leaf {
            let n = self.nodes@[i];
            let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
            if i < l < self.nodes@.len() && i < r < self.nodes@.len() && i < m < self.nodes@.len() {
                rdiv(rmul(self.h(l), self.avg(l)) + rmul(self.h(r), self.avg(r)) + if ternary(n) { rmul(self.h(m), self.avg(m)) } else { 0real }, self.h(i))
            } else { 0real }
        } else { self.w(i) }
    }
    /// ws holds the averages of every node below i
    pub open spec fn ok_from(&self, ws: Seq<F64>, i: int) -> bool
        decreases self.nodes@.len() - i
    {
        &&& ws[i].e() == Ext::Fin(self.avg(i))
        &&& self.wf() && 0 <= i < self.nodes@.len() && !self.nodes@[i].is_leaf ==> {
            let n = self.nodes@[i];
            let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
            i < l < self.nodes@.len() && i < r < self.nodes@.len() && i < m < self.nodes@.len() ==>
                self.ok_from(ws, l) && self.ok_from(ws, r) && (ternary(n) ==> self.ok_from(ws, m))
        }
    }
    /// entries that held their node's average still do
    pub open spec fn keeps(&self, a: Seq<F64>, b: Seq<F64>) -> bool {
        forall|j: int| 0 <= j < self.nodes@.len() && (#[trigger] a[j]).e() == Ext::Fin(self.avg(j)) ==> b[j].e() == a[j].e()
    }
}
pub proof fn lemma_avg_step(t: Tree, i: int)
    requires t.wf(), 0 <= i < t.nodes@.len(),
    ensures ({
        let n = t.nodes@[i];
        let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
        if n.is_leaf { t.avg(i) == t.w(i) } else {
            &&& i < l < t.nodes@.len() && i < r < t.nodes@.len() && i < m < t.nodes@.len()
            &&& t.avg(i) == rdiv(rmul(t.h(l), t.avg(l)) + rmul(t.h(r), t.avg(r)) + if ternary(n) { rmul(t.h(m), t.avg(m)) } else { 0real }, t.h(i)) } }),
{ assert(node_wf(t.nodes@[i], i, t.nodes@.len() as int)); }
pub proof fn lemma_fin(t: Tree, i: int)
    requires t.wf(), t.finite(), 0 <= i < t.nodes@.len(),
    ensures t.nodes@[i].weight_value.fin(), t.nodes@[i].hessian_sum.fin(),
        !t.nodes@[i].is_leaf ==> ({ let n = t.nodes@[i];
            t.nodes@[n.left_child as int].weight_value.fin() && t.nodes@[n.left_child as int].hessian_sum.fin() && t.nodes@[n.right_child as int].weight_value.fin() && t.nodes@[n.right_child as int].hessian_sum.fin()
            && t.nodes@[n.missing_node as int].weight_value.fin() && t.nodes@[n.missing_node as int].hessian_sum.fin() }),
{ assert(node_wf(t.nodes@[i], i, t.nodes@.len() as int)); }
pub broadcast proof fn lemma_keeps(t: Tree, a: Seq<F64>, b: Seq<F64>, i: int)
    requires t.wf(), 0 <= i < t.nodes@.len(), #[trigger] t.keeps(a, b), #[trigger] t.ok_from(a, i),
    ensures t.ok_from(b, i),
    decreases t.nodes@.len() - i
{
    lemma_avg_step(t, i);
    let n = t.nodes@[i];
    if !n.is_leaf {
        lemma_keeps(t, a, b, n.left_child as int); lemma_keeps(t, a, b, n.right_child as int);
        if ternary(n) { lemma_keeps(t, a, b, n.missing_node as int); }
    }
}
/// every node on the path of a row holds its average
pub proof fn lemma_ok_route(t: Tree, ws: Seq<F64>, row: Seq<F64>, missing: F64, i: int)
    requires t.wf(), 0 <= i < t.nodes@.len(), t.ok_from(ws, i),
    ensures ws[t.route(row, missing, i)].e() == Ext::Fin(t.w(t.route(row, missing, i))),
    decreases t.nodes@.len() - i
{
    lemma_avg_step(t, i);
    lemma_route_step(t, row, missing, i);
    let n = t.nodes@[i];
    if !n.is_leaf { lemma_ok_route(t, ws, row, missing, child_of(n, row[n.split_feature as int], missing) as int); }
}
