// what `filter` keeps
pub open spec fn at(k: int) -> bool { true }
pub open spec fn kept_from<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, x: T) -> bool {
    exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == x && call_ensures(f, (&s[k],), true)
}
pub broadcast proof fn lemma_kept<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, r: Seq<T>)
    requires #[trigger] kept(s, f, r),
    ensures
        forall|i: int| 0 <= i < r.len() ==> kept_from(s, f, #[trigger] r[i]),
        forall|k: int| 0 <= k < s.len() ==> call_ensures(f, (&#[trigger] s[k],), false) || r.contains(s[k]),
        forall|k: int| 0 <= k < s.len() && #[trigger] at(k) ==> call_ensures(f, (&s[k],), false) || r.contains(s[k]),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        if kept(t, f, r) && call_ensures(f, (&s.last(),), false) {
            lemma_kept(t, f, r);
            assert forall|i: int| 0 <= i < r.len() implies kept_from(s, f, #[trigger] r[i]) by {
                let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == r[i] && call_ensures(f, (&t[k],), true);
                assert(s[k] == r[i]);
            }
            assert forall|k: int| 0 <= k < s.len() implies call_ensures(f, (&#[trigger] s[k],), false) || r.contains(s[k]) by { if k < t.len() { assert(s[k] == t[k]); } }
        } else {
            let q = r.drop_last();
            lemma_kept(t, f, q);
            assert forall|i: int| 0 <= i < r.len() implies kept_from(s, f, #[trigger] r[i]) by {
                if i < q.len() {
                    assert(q[i] == r[i]);
                    let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == q[i] && call_ensures(f, (&t[k],), true);
                    assert(s[k] == r[i]);
                } else { assert(s[s.len() - 1] == r[i]); }
            }
            assert forall|k: int| 0 <= k < s.len() implies call_ensures(f, (&#[trigger] s[k],), false) || r.contains(s[k]) by {
                if k < t.len() { assert(s[k] == t[k]); if q.contains(t[k]) { let i = choose|i: int| 0 <= i < q.len() && q[i] == t[k]; assert(r[i] == s[k]); } }
                else { assert(r[r.len() - 1] == s[k]); }
            }
        }
    }
}
