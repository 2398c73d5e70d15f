// ---------------------------------------------------------------- sums over index sequences
pub open spec fn fsum(s: Seq<usize>, g: spec_fn(usize) -> real) -> real decreases s.len() { if s.len() == 0 { 0real } else { fsum(s.drop_last(), g) + g(s.last()) } }
pub proof fn lemma_fsum_ext(s: Seq<usize>, f: spec_fn(usize) -> real, g: spec_fn(usize) -> real)
    requires forall|k: int| 0 <= k < s.len() ==> f(#[trigger] s[k]) == g(s[k]),
    ensures fsum(s, f) == fsum(s, g),
    decreases s.len()
{ if s.len() > 0 { assert forall|k: int| 0 <= k < s.drop_last().len() implies f(#[trigger] s.drop_last()[k]) == g(s.drop_last()[k]) by { assert(s[k] == s.drop_last()[k]); } assert(f(s[s.len() - 1]) == g(s[s.len() - 1])); lemma_fsum_ext(s.drop_last(), f, g); } }
pub proof fn lemma_fsum_cat(a: Seq<usize>, b: Seq<usize>, g: spec_fn(usize) -> real)
    ensures fsum(a + b, g) == fsum(a, g) + fsum(b, g),
    decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_fsum_cat(a, b.drop_last(), g); } }
pub proof fn lemma_fsum_add(s: Seq<usize>, f: spec_fn(usize) -> real, g: spec_fn(usize) -> real, h: spec_fn(usize) -> real)
    requires forall|k: int| 0 <= k < s.len() ==> h(#[trigger] s[k]) == f(s[k]) + g(s[k]),
    ensures fsum(s, h) == fsum(s, f) + fsum(s, g),
    decreases s.len()
{ if s.len() > 0 { assert forall|k: int| 0 <= k < s.drop_last().len() implies h(#[trigger] s.drop_last()[k]) == f(s.drop_last()[k]) + g(s.drop_last()[k]) by { assert(s[k] == s.drop_last()[k]); } assert(h(s[s.len() - 1]) == f(s[s.len() - 1]) + g(s[s.len() - 1])); lemma_fsum_add(s.drop_last(), f, g, h); } }
pub proof fn lemma_fsum_remove(s: Seq<usize>, p: int, g: spec_fn(usize) -> real)
    requires 0 <= p < s.len(),
    ensures fsum(s, g) == fsum(s.remove(p), g) + g(s[p]),
    decreases s.len()
{
    if p == s.len() - 1 { assert(s.remove(p) =~= s.drop_last()); }
    else { lemma_fsum_remove(s.drop_last(), p, g); assert(s.remove(p).drop_last() =~= s.drop_last().remove(p)); assert(s.remove(p).last() == s.last()); assert(s.drop_last()[p] == s[p]); }
}
/// a sum does not depend on the order of the items
pub proof fn lemma_fsum_perm(s: Seq<usize>, t: Seq<usize>, g: spec_fn(usize) -> real)
    requires s.to_multiset() == t.to_multiset(),
    ensures fsum(s, g) == fsum(t, g), s.len() == t.len(),
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == s.to_multiset().len() && t.len() == t.to_multiset().len());
    if s.len() > 0 {
        let v = s.last();
        assert(s.contains(v)) by { assert(s[s.len() - 1] == v); }
        assert(s.to_multiset().count(v) > 0);
        assert(t.contains(v));
        let p = choose|p: int| 0 <= p < t.len() && t[p] == v;
        assert(s.drop_last() =~= s.remove(s.len() - 1));
        assert(s.remove(s.len() - 1).to_multiset() =~= t.remove(p).to_multiset());
        lemma_fsum_perm(s.drop_last(), t.remove(p), g);
        lemma_fsum_remove(t, p, g);
    }
}
