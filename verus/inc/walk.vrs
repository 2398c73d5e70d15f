// ================================================================ row contributions: what every split on the row's path adds
pub enum Kind { Weight, Average, Branch, Midpoint, Mode, Prob }
pub open spec fn rodds(x: real) -> real { rdiv(1real, 1real + rexp(0real - x)) }
pub open spec fn rmid(w: real, h: real, ow: real, oh: real) -> real { rdiv(rmul(w, h) + rmul(ow, oh), h + oh) }
/// the child that is not taken, of the two non-missing ones
pub open spec fn opposite(n: Node, c: int) -> int { if c == n.left_child { n.right_child as int } else { n.left_child as int } }
pub open spec fn ternary(n: Node) -> bool { n.missing_node != n.right_child && n.missing_node != n.left_child }
impl Tree {
    pub open spec fn w(&self, i: int) -> real { self.nodes@[i].weight_value.v() }
    pub open spec fn h(&self, i: int) -> real { self.nodes@[i].hessian_sum.v() }
    pub open spec fn finite(&self) -> bool { forall|i: int| 0 <= i < self.nodes@.len() ==> (#[trigger] self.nodes@[i]).weight_value.fin() && self.nodes@[i].hessian_sum.fin() }
    /// the two non-missing children of every split hold some cover
    pub open spec fn covered(&self) -> bool { forall|i: int| 0 <= i < self.nodes@.len() && !self.nodes@[i].is_leaf ==> #[trigger] self.covered_at(i) }
    pub open spec fn covered_at(&self, i: int) -> bool { self.h(self.nodes@[i].left_child as int) + self.h(self.nodes@[i].right_child as int) != 0real }
    /// contribution of going from node i to its child c
    pub open spec fn delta(&self, k: Kind, i: int, c: int, ws: Seq<F64>, lo: real) -> real {
        let n = self.nodes@[i];
        match k {
            Kind::Weight => self.w(c) - self.w(i),
            Kind::Average => ws[c].v() - ws[i].v(),
            Kind::Prob => rodds(self.w(c) + lo) - rodds(self.w(i) + lo),
            _ => if ternary(n) && c == n.missing_node { 0real } else {
                let o = opposite(n, c);
                match k {
                    Kind::Branch => self.w(c) - self.w(o),
                    Kind::Midpoint => self.w(c) - rmid(self.w(c), self.h(c), self.w(o), self.h(o)),
                    _ => if self.h(n.left_child as int) == self.h(n.right_child as int) { 0real }
                         else if self.h(n.left_child as int) > self.h(n.right_child as int) { self.w(c) - self.w(n.left_child as int) }
                         else { self.w(c) - self.w(n.right_child as int) },
                }
            },
        }
    }
    /// contributions after walking from node i down to the leaf
    pub open spec fn walk(&self, k: Kind, row: Seq<F64>, missing: F64, i: int, ws: Seq<F64>, lo: real, c: Seq<real>) -> Seq<real>
        decreases self.nodes@.len() - i
    {
        if self.wf() && 0 <= i < self.nodes@.len() && !self.nodes@[i].is_leaf {
            let n = self.nodes@[i];
            let j = child_of(n, row[n.split_feature as int], missing) as int;
            let f = n.split_feature as int;
            if i < j < self.nodes@.len() { self.walk(k, row, missing, j, ws, lo, c.update(f, c[f] + self.delta(k, i, j, ws, lo))) } else { c }
        } else { c }
    }
    pub open spec fn ctx_ok(&self, row: Seq<F64>, missing: F64, n: int) -> bool {
        self.wf() && self.finite() && self.feat_ok(row.len() as int) && row_ok(row, missing) && n == row.len() + 1
    }
}
pub open spec fn add_at(c: Seq<real>, i: int, x: real) -> Seq<real> { c.update(i, c[i] + x) }
/// one step of the walk
pub proof fn lemma_walk_step(t: Tree, k: Kind, row: Seq<F64>, missing: F64, i: int, ws: Seq<F64>, lo: real, c: Seq<real>)
    requires t.wf(), 0 <= i < t.nodes@.len(),
    ensures
        t.nodes@[i].is_leaf ==> t.walk(k, row, missing, i, ws, lo, c) == c && t.route(row, missing, i) == i,
        !t.nodes@[i].is_leaf ==> ({
            let n = t.nodes@[i];
            let j = child_of(n, row[n.split_feature as int], missing) as int;
            let f = n.split_feature as int;
            i < j < t.nodes@.len() && t.route(row, missing, i) == t.route(row, missing, j)
            && t.walk(k, row, missing, i, ws, lo, c) == t.walk(k, row, missing, j, ws, lo, add_at(c, f, t.delta(k, i, j, ws, lo)))
        }),
{
    assert(node_wf(t.nodes@[i], i, t.nodes@.len() as int));
}
/// the contributions of a walk sum to what changes between its ends
pub open spec fn potential(t: Tree, k: Kind, i: int, ws: Seq<F64>, lo: real) -> real {
    match k { Kind::Weight => t.w(i), Kind::Average => ws[i].v(), _ => rodds(t.w(i) + lo) }
}
pub proof fn walk_sum(t: Tree, k: Kind, row: Seq<F64>, missing: F64, i: int, ws: Seq<F64>, lo: real, c: Seq<real>)
    requires t.wf(), t.feat_ok(row.len() as int), 0 <= i < t.nodes@.len(), c.len() == row.len() + 1, k is Weight || k is Average || k is Prob,
    ensures ({ let r = t.walk(k, row, missing, i, ws, lo, c);
        r.len() == c.len() && rsum(r) == rsum(c) + potential(t, k, t.route(row, missing, i), ws, lo) - potential(t, k, i, ws, lo) }),
    decreases t.nodes@.len() - i
{
    lemma_walk_step(t, k, row, missing, i, ws, lo, c);
    if !t.nodes@[i].is_leaf {
        let n = t.nodes@[i];
        let j = child_of(n, row[n.split_feature as int], missing) as int;
        let f = n.split_feature as int;
        let d = t.delta(k, i, j, ws, lo);
        assert(d == potential(t, k, j, ws, lo) - potential(t, k, i, ws, lo));
        lemma_rsum_update(c, f, c[f] + d);
        walk_sum(t, k, row, missing, j, ws, lo, add_at(c, f, d));
    }
}
/// a feature that no split of the tree uses gets nothing (the bias, which no split can name, included)
pub proof fn walk_unused(t: Tree, k: Kind, row: Seq<F64>, missing: F64, i: int, ws: Seq<F64>, lo: real, c: Seq<real>, f: int)
    requires t.wf(), t.feat_ok(row.len() as int), 0 <= i < t.nodes@.len(), c.len() == row.len() + 1, 0 <= f < c.len(),
        forall|m: int| 0 <= m < t.nodes@.len() && !(#[trigger] t.nodes@[m]).is_leaf ==> t.nodes@[m].split_feature != f,
    ensures t.walk(k, row, missing, i, ws, lo, c)[f] == c[f],
    decreases t.nodes@.len() - i
{
    lemma_walk_step(t, k, row, missing, i, ws, lo, c);
    if !t.nodes@[i].is_leaf {
        let n = t.nodes@[i];
        let j = child_of(n, row[n.split_feature as int], missing) as int;
        walk_unused(t, k, row, missing, j, ws, lo, add_at(c, n.split_feature as int, t.delta(k, i, j, ws, lo)), f);
    }
}
