// ================================================================ gradientbooster.rs : importance
/*@enum gradientbooster.rs :: ImportanceMethod */
// ---- function values (R25)
#[derive(Clone, Copy)]
pub enum ImportanceFn { Weight, Gain, Cover }
pub open spec fn stat_fn(f: ImportanceFn) -> Stat { match f { ImportanceFn::Weight => Stat::One, ImportanceFn::Gain => Stat::Gain, ImportanceFn::Cover => Stat::Cover } }
pub fn vx_importance(f: ImportanceFn, tree: &Tree, stats: &mut HashMap<usize, (F32, usize)>)
    requires tree.wf(), room(old(stats)@, tree.visits(0).len() as int),
    ensures final(stats)@ == tally(old(stats)@, *tree, tree.visits(0), by(stat_fn(f))),
{
    match f {
        ImportanceFn::Weight => tree.calculate_importance_weight(stats),
        ImportanceFn::Gain => tree.calculate_importance_gain(stats),
        ImportanceFn::Cover => tree.calculate_importance_cover(stats),
    }
}
// ---- walking over a map, in an arbitrary order
pub struct VxEntries<'a, V> { pub m: &'a HashMap<usize, V> }
pub struct VxEntriesMapped<'a, V, F> { pub m: &'a HashMap<usize, V>, pub f: F }
pub trait VxMapWalk<V> { fn vx_iter<'a>(&'a self) -> (r: VxEntries<'a, V>) ensures r.m@ == self.vx_m(); spec fn vx_m(&self) -> Map<usize, V>; }
impl<V> VxMapWalk<V> for HashMap<usize, V> {
    open spec fn vx_m(&self) -> Map<usize, V> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VxEntries<'a, V>) { unimplemented!() }
}
impl<'a, V> VxEntries<'a, V> {
    pub fn vx_map<W, F: Fn((&'a usize, &'a V)) -> (usize, W)>(self, f: F) -> (r: VxEntriesMapped<'a, V, F>)
        ensures r.m == self.m, r.f == f,
    { VxEntriesMapped { m: self.m, f } }
}
/// an entry and what the function makes of it
pub open spec fn mapped<V, W, F: Fn((&usize, &V)) -> (usize, W)>(f: F, k: usize, v: V, o: (usize, W)) -> bool { call_ensures(f, ((&k, &v),), o) }
impl<'a, V, F> VxEntriesMapped<'a, V, F> {
    /// the function may not move an entry to another key
    #[verifier::external_body]
    pub fn vx_collect<W>(self) -> (r: HashMap<usize, W>) where F: Fn((&'a usize, &'a V)) -> (usize, W)
        requires
            forall|k: usize| self.m@.contains_key(k) ==> #[trigger] call_requires(self.f, ((&k, &self.m@[k]),)),
            forall|k: usize, o: (usize, W)| self.m@.contains_key(k) && #[trigger] call_ensures(self.f, ((&k, &self.m@[k]),), o) ==> o.0 == k,
        ensures
            r@.dom() == self.m@.dom(),
            forall|k: usize| self.m@.contains_key(k) ==> call_ensures(self.f, ((&k, &self.m@[k]),), (k, #[trigger] r@[k])),
    { unimplemented!() }
}
/// a list of the values of a map, in some order
pub open spec fn values_of(m: Map<usize, F32>, s: Seq<F32>) -> bool {
    exists|ks: Seq<usize>| #[trigger] lists(ks, m) && s == Seq::new(ks.len(), |i: int| m[ks[i]])
}
pub open spec fn lists(ks: Seq<usize>, m: Map<usize, F32>) -> bool { ks.no_duplicates() && forall|k: usize| ks.contains(k) <==> m.contains_key(k) }
pub broadcast proof fn lemma_values(m: Map<usize, F32>, s: Seq<F32>)
    requires #[trigger] values_of(m, s), forall|k: usize| m.contains_key(k) ==> !(#[trigger] m[k]).nan(),
    ensures forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).nan(),
{
    let ks = choose|ks: Seq<usize>| #[trigger] lists(ks, m) && s == Seq::new(ks.len(), |i: int| m[ks[i]]);
    assert forall|i: int| 0 <= i < s.len() implies !(#[trigger] s[i]).nan() by { assert(ks.contains(ks[i])); assert(s[i] == m[ks[i]]); }
}
pub struct VxValues<'a> { pub m: &'a HashMap<usize, F32> }
pub trait VxMapValues { fn vx_values<'a>(&'a self) -> (r: VxValues<'a>) ensures r.m@ == self.vx_mv(); spec fn vx_mv(&self) -> Map<usize, F32>; }
impl VxMapValues for HashMap<usize, F32> {
    open spec fn vx_mv(&self) -> Map<usize, F32> { self@ }
    #[verifier::external_body]
    fn vx_values<'a>(&'a self) -> (r: VxValues<'a>) { unimplemented!() }
}
impl<'a> VxValues<'a> {
    pub fn vx_copied(self) -> (r: VxValues<'a>) ensures r.m == self.m, { self }
    #[verifier::external_body]
    pub fn vx_collect(self) -> (r: Vec<F32>) ensures values_of(self.m@, r@), { unimplemented!() }
}
pub open spec fn sum32(s: Seq<F32>) -> F32 decreases s.len() { if s.len() == 0 { F32::lit_(0, 1) } else { sum32(s.drop_last()).add_(s.last()) } }
pub trait VxSum32: Sized { #[verifier::prophetic] spec fn vx_sv(&self) -> Seq<&F32>; fn vx_sum(self) -> (r: F32) ensures forall|s: Seq<F32>| #[trigger] hint(s) && s.len() == self.vx_sv().len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == *(#[trigger] self.vx_sv()[i])) ==> r == sum32(s); }
impl<'a> VxSum32 for core::slice::Iter<'a, F32> {
    #[verifier::prophetic]
    open spec fn vx_sv(&self) -> Seq<&F32> { vstd::std_specs::iter::IteratorSpec::remaining(self) }
    #[verifier::external_body]
    fn vx_sum(self) -> (r: F32) { unimplemented!() }
}
/// the sum of the values of a map, taken in some order
pub open spec fn is_total(m: Map<usize, F32>, t: F32) -> bool {
    exists|s: Seq<F32>, q: Seq<F32>| #[trigger] values_of(m, s) && #[trigger] q.to_multiset() == s.to_multiset() && t == sum32(q)
}
/// average or total of what was counted for a feature
pub open spec fn averaged(m: ImportanceMethod) -> bool { m is Gain || m is Cover }
pub open spec fn stat_of(m: ImportanceMethod) -> Stat { match m { ImportanceMethod::Weight => Stat::One, ImportanceMethod::Gain => Stat::Gain, ImportanceMethod::TotalGain => Stat::Gain, ImportanceMethod::Cover => Stat::Cover, ImportanceMethod::TotalCover => Stat::Cover } }
pub open spec fn raw_value(m: ImportanceMethod, x: (F32, usize)) -> F32 { if averaged(m) { x.0.div_(int32_(x.1 as int)) } else { x.0 } }
pub open spec fn raw_values(m: ImportanceMethod, ts: Seq<Tree>) -> Map<usize, F32> {
    let st = all_stats(ts, by(stat_of(m)));
    Map::new(st.dom(), |k: usize| raw_value(m, st[k]))
}
pub proof fn lemma_visits_prefix(ts: Seq<Tree>, k: int)
    requires 0 <= k <= ts.len(),
    ensures 0 <= n_visits(ts.subrange(0, k)) <= n_visits(ts),
    decreases ts.len(),
{
    if ts.len() == 0 { assert(ts.subrange(0, k) =~= ts); }
    else if k == ts.len() { lemma_visits_prefix(ts.drop_last(), k - 1); assert(ts.subrange(0, k) =~= ts); assert(ts.drop_last().subrange(0, k - 1) =~= ts.drop_last()); }
    else { lemma_visits_prefix(ts.drop_last(), k); assert(ts.drop_last().subrange(0, k) =~= ts.subrange(0, k)); }
}
impl GradientBooster {
/*@fn gradientbooster.rs :: GradientBooster :: calculate_feature_importance
defun Tree::calculate_importance_weight=ImportanceFn::Weight Tree::calculate_importance_gain=ImportanceFn::Gain Tree::calculate_importance_cover=ImportanceFn::Cover
calls importance_fn=vx_importance
std map collect values copied sort_by=vx_sort_unstable_by sum
ret r
spec:
    requires
        forall|i: int| 0 <= i < self.trees@.len() ==> (#[trigger] self.trees@[i]).wf(),
        n_visits(self.trees@) <= usize::MAX,
        normalize ==> forall|k: usize| raw_values(method, self.trees@).contains_key(k) ==> !(#[trigger] raw_values(method, self.trees@)[k]).nan(),
    ensures
        r@.dom() == raw_values(method, self.trees@).dom(),
        !normalize ==> r@ == raw_values(method, self.trees@),
        normalize ==> exists|t: F32| #[trigger] is_total(raw_values(method, self.trees@), t) && forall|k: usize| r@.contains_key(k) ==> #[trigger] r@[k] == raw_values(method, self.trees@)[k].div_(t),
start:
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lemma_values;
    let ghost ts = self.trees@;
    let ghost raw = raw_values(method, ts);
    let ghost f = by(stat_of(method));
    proof { assert(ts.subrange(0, 0) =~= Seq::<Tree>::empty()); }
loop 1 iter it:
    invariant
        self.trees@ == ts, it.seq().len() == ts.len(), forall|k: int| 0 <= k < ts.len() ==> *(#[trigger] it.seq()[k]) == ts[k], n_visits(ts) <= usize::MAX,
        forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).wf(), f == by(stat_fn(importance_fn)),
        stats@ == all_stats(ts.subrange(0, it.index@), f),
loop 1 start:
    proof {
        let k = it.index@;
        assert(ts.subrange(0, k + 1).drop_last() =~= ts.subrange(0, k));
        lemma_visits_prefix(ts, k + 1);
        lemma_all_room(ts.subrange(0, k), f, ts[k].visits(0).len() as int);
    }
replace "stats.iter()": stats.vx_iter()
replace "importance.iter()": importance.vx_iter()
before "if normalize":
    proof {
        assert(ts.subrange(0, ts.len() as int) =~= ts);
        assert(importance@.dom() =~= raw.dom());
        assert forall|k: usize| raw.contains_key(k) implies importance@[k] == raw[k] by { }
        assert(importance@ =~= raw);
    }
before "importance.iter()":
    proof { assert(hint(values@)); assert(is_total(raw, total)); }
closure 1:
    |p__: (&usize, &(F32, usize))| -> (o: (usize, F32)) ensures o == (*p__.0, if average { p__.1.0.div_(int32_(p__.1.1 as int)) } else { p__.1.0 })
closure 2:
    |a: &F32, b: &F32| -> (o: Ordering) requires !a.nan(), !b.nan(), ensures ext_lt(a.e(), b.e()) ==> o is Less, ext_lt(b.e(), a.e()) ==> o is Greater
closure 3:
    |p__: (&usize, &F32)| -> (o: (usize, F32)) ensures o == (*p__.0, p__.1.div_(total))
*/
}
