// ================================================================ tree.rs : importance
pub type Stats = Map<usize, (F32, usize)>;
/// one more split counted
pub open spec fn counted(m: Stats, n: Node, x: F32) -> Stats {
    m.insert(n.split_feature, if m.contains_key(n.split_feature) { (m[n.split_feature].0.add_(x), (m[n.split_feature].1 + 1) as usize) } else { (x, 1usize) })
}
pub open spec fn branches(n: Node) -> bool { n.missing_node != n.right_child && n.missing_node != n.left_child }
impl Tree {
    /// the splits at and below node i, in the order they are visited
    pub open spec fn visits(&self, i: int) -> Seq<int>
        decreases self.nodes@.len() - i
    {
        if self.wf() && 0 <= i < self.nodes@.len() && !self.nodes@[i].is_leaf {
            let n = self.nodes@[i];
            if i < n.left_child < self.nodes@.len() && i < n.right_child < self.nodes@.len() && i < n.missing_node < self.nodes@.len() {
                seq![i] + self.visits(n.left_child as int) + self.visits(n.right_child as int) + (if branches(n) { self.visits(n.missing_node as int) } else { Seq::empty() })
            } else { Seq::empty() }
        } else { Seq::empty() }
    }
}
/// all of them counted, one after the other
pub open spec fn tally(m: Stats, t: Tree, s: Seq<int>, f: spec_fn(Node) -> F32) -> Stats decreases s.len() {
    if s.len() == 0 { m } else { counted(tally(m, t, s.drop_last(), f), t.nodes@[s.last()], f(t.nodes@[s.last()])) }
}
pub proof fn lemma_tally_cat(m: Stats, t: Tree, a: Seq<int>, b: Seq<int>, f: spec_fn(Node) -> F32)
    ensures tally(m, t, a + b, f) == tally(tally(m, t, a, f), t, b, f),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_tally_cat(m, t, a, b.drop_last(), f);
    }
}
/// counting k more splits cannot overflow
pub open spec fn room(m: Stats, k: int) -> bool { k <= usize::MAX && forall|x: usize| m.contains_key(x) ==> (#[trigger] m[x]).1 + k <= usize::MAX }
pub proof fn lemma_room(m: Stats, t: Tree, s: Seq<int>, f: spec_fn(Node) -> F32, k: int)
    requires room(m, s.len() + k), k >= 0,
    ensures room(tally(m, t, s, f), k),
    decreases s.len(),
{ if s.len() > 0 { lemma_room(m, t, s.drop_last(), f, k + 1); } }
/// what the statistic of a node is
pub open spec fn stat<F: Fn(&Node) -> F32>(f: &F) -> spec_fn(Node) -> F32 { |n: Node| choose|r: F32| #[trigger] call_ensures(f, (&n,), r) }
pub open spec fn pure_stat<F: Fn(&Node) -> F32>(f: &F) -> bool {
    (forall|n: &Node| #[trigger] call_requires(f, (n,))) && forall|n: &Node, a: F32, b: F32| #[trigger] call_ensures(f, (n,), a) && #[trigger] call_ensures(f, (n,), b) ==> a == b
}
pub ghost enum Stat { One, Gain, Cover }
pub open spec fn by(s: Stat) -> spec_fn(Node) -> F32 {
    |n: Node| match s { Stat::One => F32::lit_(1, 1), Stat::Gain => n.split_gain, Stat::Cover => n.hessian_sum }
}
/// the function computes this statistic
pub open spec fn gives<F: Fn(&Node) -> F32>(f: &F, g: spec_fn(Node) -> F32) -> bool { forall|n: &Node, r: F32| #[trigger] call_ensures(f, (n,), r) ==> r == g(*n) }
/// visiting a split: itself, then its children
pub proof fn lemma_visit(t: Tree, i: int, m: Stats, f: spec_fn(Node) -> F32)
    requires t.wf(), 0 <= i < t.nodes@.len(), room(m, t.visits(i).len() as int),
    ensures
        t.nodes@[i].is_leaf ==> t.visits(i).len() == 0 && tally(m, t, t.visits(i), f) == m,
        !t.nodes@[i].is_leaf ==> ({
            let n = t.nodes@[i];
            let m1 = counted(m, n, f(n));
            let m2 = tally(m1, t, t.visits(n.left_child as int), f);
            let m3 = tally(m2, t, t.visits(n.right_child as int), f);
            &&& i < n.left_child < t.nodes@.len() && i < n.right_child < t.nodes@.len() && i < n.missing_node < t.nodes@.len()
            &&& room(m, 1) && room(m1, t.visits(n.left_child as int).len() as int) && room(m2, t.visits(n.right_child as int).len() as int)
            &&& branches(n) ==> room(m3, t.visits(n.missing_node as int).len() as int) && tally(m, t, t.visits(i), f) == tally(m3, t, t.visits(n.missing_node as int), f)
            &&& !branches(n) ==> tally(m, t, t.visits(i), f) == m3
            &&& node_wf(t.nodes@[n.left_child as int], n.left_child as int, t.nodes@.len() as int)
            &&& node_wf(t.nodes@[n.right_child as int], n.right_child as int, t.nodes@.len() as int)
            &&& node_wf(t.nodes@[n.missing_node as int], n.missing_node as int, t.nodes@.len() as int)
        }),
{
    let n = t.nodes@[i];
    assert(node_wf(n, i, t.nodes@.len() as int));
    if !n.is_leaf {
        let (a, l, r) = (seq![i], t.visits(n.left_child as int), t.visits(n.right_child as int));
        let c: Seq<int> = if branches(n) { t.visits(n.missing_node as int) } else { Seq::empty() };
        let m1 = counted(m, n, f(n));
        let m2 = tally(m1, t, l, f);
        let m3 = tally(m2, t, r, f);
        assert(a.drop_last() =~= Seq::<int>::empty());
        assert(tally(m, t, a.drop_last(), f) == m);
        assert(tally(m, t, a, f) == m1);
        lemma_tally_cat(m, t, a, l, f);
        lemma_tally_cat(m, t, a + l, r, f);
        lemma_tally_cat(m, t, a + l + r, c, f);
        lemma_room(m, t, a, f, (l.len() + r.len() + c.len()) as int);
        lemma_room(m1, t, l, f, (r.len() + c.len()) as int);
        lemma_room(m2, t, r, f, c.len() as int);
        assert(t.visits(i) == a + l + r + c);
        if !branches(n) { assert(tally(m3, t, c, f) == m3); }
    }
}
impl Tree {
/*@fn tree.rs :: Tree :: calc_feature_node_stats
spec:
    requires self.wf(), 0 <= node.num < self.nodes@.len(), *node == self.nodes@[node.num as int], pure_stat(calc_stat), room(old(stats)@, self.visits(node.num as int).len() as int),
    ensures forall|g: spec_fn(Node) -> F32| gives(calc_stat, g) ==> final(stats)@ == #[trigger] tally(old(stats)@, *self, self.visits(node.num as int), g),
    decreases self.nodes@.len() - node.num,
start:
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost s0 = stats@;
    proof { lemma_visit(*self, node.num as int, s0, stat(calc_stat)); assert(gives(calc_stat, stat(calc_stat))); }
tail:
    proof { assert forall|g: spec_fn(Node) -> F32| gives(calc_stat, g) implies stats@ == #[trigger] tally(s0, *self, self.visits(node.num as int), g) by { lemma_visit(*self, node.num as int, s0, g); } }
*/
/*@fn tree.rs :: Tree :: get_node_stats
spec:
    requires self.wf(), pure_stat(calc_stat), room(old(stats)@, self.visits(0).len() as int),
    ensures forall|g: spec_fn(Node) -> F32| gives(calc_stat, g) ==> final(stats)@ == #[trigger] tally(old(stats)@, *self, self.visits(0), g),
start:
    proof { assert(node_wf(self.nodes@[0], 0, self.nodes@.len() as int)); }
*/
/*@fn tree.rs :: Tree :: calculate_importance_weight
lit f32
spec:
    requires self.wf(), room(old(stats)@, self.visits(0).len() as int),
    ensures final(stats)@ == tally(old(stats)@, *self, self.visits(0), by(Stat::One)),
closure 1:
    |p__: &Node| -> (o: F32) ensures o == F32::lit_(1, 1)
*/
/*@fn tree.rs :: Tree :: calculate_importance_gain
spec:
    requires self.wf(), room(old(stats)@, self.visits(0).len() as int),
    ensures final(stats)@ == tally(old(stats)@, *self, self.visits(0), by(Stat::Gain)),
closure 1:
    |n: &Node| -> (o: F32) ensures o == n.split_gain
*/
/*@fn tree.rs :: Tree :: calculate_importance_cover
spec:
    requires self.wf(), room(old(stats)@, self.visits(0).len() as int),
    ensures final(stats)@ == tally(old(stats)@, *self, self.visits(0), by(Stat::Cover)),
closure 1:
    |n: &Node| -> (o: F32) ensures o == n.hessian_sum
*/
}
// ---- what has been counted: number and sum of the statistic of the splits on a feature
pub open spec fn cnt(t: Tree, s: Seq<int>, k: usize) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { cnt(t, s.drop_last(), k) + if t.nodes@[s.last()].split_feature == k { 1int } else { 0 } }
}
pub open spec fn total(t: Tree, s: Seq<int>, k: usize, f: spec_fn(Node) -> F32) -> real decreases s.len() {
    if s.len() == 0 { 0real } else { total(t, s.drop_last(), k, f) + if t.nodes@[s.last()].split_feature == k { f(t.nodes@[s.last()]).v() } else { 0real } }
}
/// the count c and the sum r of feature k are what m holds
pub open spec fn holds_at(m: Stats, k: usize, c: int, r: real) -> bool {
    &&& c >= 0 && (m.contains_key(k) <==> c > 0)
    &&& c > 0 ==> m[k].1 == c && m[k].0.e() == Ext::Fin(r)
    &&& c == 0 ==> r == 0real
}
pub proof fn lemma_tally(m: Stats, t: Tree, s: Seq<int>, f: spec_fn(Node) -> F32, k: usize, c: int, r: real)
    requires holds_at(m, k, c, r), room(m, s.len() as int), forall|j: int| 0 <= j < s.len() ==> f(#[trigger] t.nodes@[s[j]]).fin(),
    ensures holds_at(tally(m, t, s, f), k, c + cnt(t, s, k), r + total(t, s, k, f)), cnt(t, s, k) >= 0,
    decreases s.len(),
{
    broadcast use ideal_arith;
    if s.len() > 0 {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies f(#[trigger] t.nodes@[s.drop_last()[j]]).fin() by { assert(s.drop_last()[j] == s[j]); }
        lemma_tally(m, t, s.drop_last(), f, k, c, r);
        lemma_room(m, t, s.drop_last(), f, 1);
        assert(f(t.nodes@[s[s.len() - 1]]).fin());
    }
}
/// the statistics of all trees
pub open spec fn all_stats(ts: Seq<Tree>, f: spec_fn(Node) -> F32) -> Stats decreases ts.len() {
    if ts.len() == 0 { Map::empty() } else { tally(all_stats(ts.drop_last(), f), ts.last(), ts.last().visits(0), f) }
}
pub open spec fn all_cnt(ts: Seq<Tree>, k: usize) -> int decreases ts.len() { if ts.len() == 0 { 0 } else { all_cnt(ts.drop_last(), k) + cnt(ts.last(), ts.last().visits(0), k) } }
pub open spec fn all_total(ts: Seq<Tree>, k: usize, f: spec_fn(Node) -> F32) -> real decreases ts.len() { if ts.len() == 0 { 0real } else { all_total(ts.drop_last(), k, f) + total(ts.last(), ts.last().visits(0), k, f) } }
pub open spec fn n_visits(ts: Seq<Tree>) -> int decreases ts.len() { if ts.len() == 0 { 0 } else { n_visits(ts.drop_last()) + ts.last().visits(0).len() } }
pub open spec fn fin_stat(t: Tree, f: spec_fn(Node) -> F32) -> bool { forall|j: int| 0 <= j < t.visits(0).len() ==> f(#[trigger] t.nodes@[t.visits(0)[j]]).fin() }
pub proof fn lemma_all_room(ts: Seq<Tree>, f: spec_fn(Node) -> F32, n: int)
    requires n_visits(ts) + n <= usize::MAX, n >= 0,
    ensures room(all_stats(ts, f), n), n_visits(ts) >= 0,
    decreases ts.len(),
{
    if ts.len() > 0 {
        lemma_all_room(ts.drop_last(), f, n + ts.last().visits(0).len());
        lemma_room(all_stats(ts.drop_last(), f), ts.last(), ts.last().visits(0), f, n);
    }
}
/// weight counts the splits on a feature, the totals add up their statistic; a feature without splits is absent
pub proof fn thm_all_stats(ts: Seq<Tree>, f: spec_fn(Node) -> F32, k: usize)
    requires n_visits(ts) <= usize::MAX, forall|i: int| 0 <= i < ts.len() ==> fin_stat(#[trigger] ts[i], f),
    ensures holds_at(all_stats(ts, f), k, all_cnt(ts, k), all_total(ts, k, f)),
    decreases ts.len(),
{
    if ts.len() > 0 {
        let u = ts.drop_last();
        assert forall|i: int| 0 <= i < u.len() implies fin_stat(#[trigger] u[i], f) by { assert(u[i] == ts[i]); }
        thm_all_stats(u, f, k);
        lemma_all_room(u, f, ts.last().visits(0).len() as int);
        assert(fin_stat(ts[ts.len() - 1], f));
        lemma_tally(all_stats(u, f), ts.last(), ts.last().visits(0), f, k, all_cnt(u, k), all_total(u, k, f));
    }
}
/// every split with the number 1 as its statistic: the total is the count
pub proof fn thm_weight(ts: Seq<Tree>, k: usize)
    ensures all_total(ts, k, by(Stat::One)) == all_cnt(ts, k) as real,
    decreases ts.len(),
{ if ts.len() > 0 { thm_weight(ts.drop_last(), k); lemma_weight(ts.last(), ts.last().visits(0), k); } }
/// the literal 1
#[verifier::external_body]
proof fn lit_one() ensures F32::lit_(1, 1).e() == Ext::Fin(1real) {}
proof fn lemma_weight(t: Tree, s: Seq<int>, k: usize)
    ensures total(t, s, k, by(Stat::One)) == cnt(t, s, k) as real,
    decreases s.len(),
{ if s.len() > 0 { lemma_weight(t, s.drop_last(), k); lit_one(); } }
// ---- every split is visited exactly once
pub open spec fn is_child(n: Node, c: int) -> bool { !n.is_leaf && (c == n.left_child || c == n.right_child || c == n.missing_node) }
/// no node has two parents, and only the root has none (P02)
pub open spec fn one_parent(t: Tree) -> bool {
    &&& t.wf()
    &&& forall|p: int, q: int, c: int| 0 <= p < t.nodes@.len() && 0 <= q < t.nodes@.len() && is_child(#[trigger] t.nodes@[p], c) && #[trigger] is_child(t.nodes@[q], c) ==> p == q
    &&& forall|c: int| 0 < c < t.nodes@.len() ==> #[trigger] has_par(t, c)
}
pub open spec fn has_par(t: Tree, c: int) -> bool { exists|p: int| 0 <= p < t.nodes@.len() && is_child(#[trigger] t.nodes@[p], c) }
pub open spec fn occ(s: Seq<int>, j: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { occ(s.drop_last(), j) + if s.last() == j { 1int } else { 0 } } }
proof fn lemma_occ_cat(a: Seq<int>, b: Seq<int>, j: int)
    ensures occ(a + b, j) == occ(a, j) + occ(b, j),
    decreases b.len(),
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_occ_cat(a, b.drop_last(), j); } }
/// one visit, taken apart
proof fn lemma_occ_visit(t: Tree, i: int, j: int)
    requires t.wf(), 0 <= i < t.nodes@.len(),
    ensures
        t.nodes@[i].is_leaf ==> occ(t.visits(i), j) == 0,
        !t.nodes@[i].is_leaf ==> ({
            let n = t.nodes@[i];
            occ(t.visits(i), j) == (if i == j { 1int } else { 0 }) + occ(t.visits(n.left_child as int), j) + occ(t.visits(n.right_child as int), j) + (if branches(n) { occ(t.visits(n.missing_node as int), j) } else { 0 })
        }),
{
    let n = t.nodes@[i];
    assert(node_wf(n, i, t.nodes@.len() as int));
    if !n.is_leaf {
        let (a, l, r) = (seq![i], t.visits(n.left_child as int), t.visits(n.right_child as int));
        let c: Seq<int> = if branches(n) { t.visits(n.missing_node as int) } else { Seq::empty() };
        assert(t.visits(i) == a + l + r + c);
        lemma_occ_cat(a, l, j);
        lemma_occ_cat(a + l, r, j);
        lemma_occ_cat(a + l + r, c, j);
        assert(a.drop_last() =~= Seq::<int>::empty());
        assert(occ(a.drop_last(), j) == 0);
        assert(occ(a, j) == if i == j { 1int } else { 0 });
    }
}
proof fn lemma_occ_before(t: Tree, i: int, j: int)
    requires t.wf(), 0 <= i < t.nodes@.len(), j < i,
    ensures occ(t.visits(i), j) == 0,
    decreases t.nodes@.len() - i,
{
    let n = t.nodes@[i];
    assert(node_wf(n, i, t.nodes@.len() as int));
    lemma_occ_visit(t, i, j);
    if !n.is_leaf { lemma_occ_before(t, n.left_child as int, j); lemma_occ_before(t, n.right_child as int, j); lemma_occ_before(t, n.missing_node as int, j); }
}
proof fn lemma_occ_self(t: Tree, i: int)
    requires t.wf(), 0 <= i < t.nodes@.len(), !t.nodes@[i].is_leaf,
    ensures occ(t.visits(i), i) == 1,
{
    let n = t.nodes@[i];
    assert(node_wf(n, i, t.nodes@.len() as int));
    lemma_occ_visit(t, i, i);
    lemma_occ_before(t, n.left_child as int, i); lemma_occ_before(t, n.right_child as int, i); lemma_occ_before(t, n.missing_node as int, i);
}
/// a split is visited as often as its parent
proof fn lemma_occ_parent(t: Tree, i: int, p: int, j: int)
    requires one_parent(t), 0 <= i < t.nodes@.len(), 0 <= p < t.nodes@.len(), is_child(t.nodes@[p], j), i != j, 0 <= j < t.nodes@.len(), !t.nodes@[j].is_leaf,
    ensures occ(t.visits(i), j) == occ(t.visits(i), p),
    decreases t.nodes@.len() - i,
{
    let n = t.nodes@[i];
    assert(node_wf(n, i, t.nodes@.len() as int));
    assert(node_wf(t.nodes@[p], p, t.nodes@.len() as int));
    lemma_occ_visit(t, i, j);
    lemma_occ_visit(t, i, p);
    if !n.is_leaf {
        let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
        assert(is_child(t.nodes@[i], l) && is_child(t.nodes@[i], r) && is_child(t.nodes@[i], m));
        if i == p {
            lemma_occ_self(t, j);
            lemma_occ_before(t, l, p); lemma_occ_before(t, r, p); lemma_occ_before(t, m, p);
            if l != j { lemma_occ_parent(t, l, p, j); }
            if r != j { lemma_occ_parent(t, r, p, j); }
            if m != j { lemma_occ_parent(t, m, p, j); }
        } else {
            lemma_occ_parent(t, l, p, j);
            lemma_occ_parent(t, r, p, j);
            lemma_occ_parent(t, m, p, j);
        }
    }
}
/// every split of a tree is counted exactly once
pub proof fn thm_exactly_once(t: Tree, j: int)
    requires one_parent(t), 0 <= j < t.nodes@.len(), !t.nodes@[j].is_leaf,
    ensures occ(t.visits(0), j) == 1,
    decreases j,
{
    if j == 0 { lemma_occ_self(t, 0); } else {
        assert(has_par(t, j));
        let p = choose|p: int| 0 <= p < t.nodes@.len() && is_child(#[trigger] t.nodes@[p], j);
        assert(node_wf(t.nodes@[p], p, t.nodes@.len() as int));
        thm_exactly_once(t, p);
        lemma_occ_parent(t, 0, p, j);
    }
}
