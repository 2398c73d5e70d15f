// ================================================================ Vec::dedup on floats
pub open spec fn dedup(s: Seq<F64>) -> Seq<F64> decreases s.len() {
    if s.len() == 0 { s } else {
        let d = dedup(s.drop_last());
        if d.len() > 0 && ext_eq(d.last().e(), s.last().e()) { d } else { d.push(s.last()) }
    }
}
pub trait VxDedup { fn vx_dedup(&mut self); }
impl VxDedup for Vec<F64> {
    #[verifier::external_body]
    fn vx_dedup(&mut self) ensures final(self)@ == dedup(old(self)@) { unimplemented!() }
}
pub open spec fn nondecreasing(s: Seq<F64>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).nan()
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> ext_le(#[trigger] s[i].e(), #[trigger] s[j].e())
}
pub open spec fn has_val(s: Seq<F64>, x: F64) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).e() == x.e() }
proof fn lemma_le_ne(a: Ext, b: Ext) requires ext_le(a, b), !ext_eq(a, b), ensures ext_lt(a, b), {}
proof fn lemma_lt_trans(a: Ext, b: Ext, c: Ext) requires ext_lt(a, b), ext_lt(b, c), ensures ext_lt(a, c), {}
proof fn lemma_le_trans(a: Ext, b: Ext, c: Ext) requires ext_le(a, b), ext_le(b, c), ensures ext_le(a, c), {}
pub proof fn lemma_dedup_order(s: Seq<F64>)
    requires nondecreasing(s),
    ensures
        cuts_ok(dedup(s)), dedup(s).len() <= s.len(),
        s.len() > 0 ==> dedup(s).len() > 0 && dedup(s)[0] == s[0] && dedup(s).last().e() == s.last().e(),
    decreases s.len()
{
    hide(ext_lt);
    if s.len() > 0 {
        let t = s.drop_last();
        assert(nondecreasing(t)) by {
            assert forall|i: int| 0 <= i < t.len() implies !(#[trigger] t[i]).nan() by { assert(t[i] == s[i]); }
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies ext_le(#[trigger] t[i].e(), #[trigger] t[j].e()) by { assert(t[i] == s[i] && t[j] == s[j]); assert(ext_le(s[i].e(), s[j].e())); }
        }
        lemma_dedup_order(t);
        let d = dedup(t);
        let r = dedup(s);
        if t.len() > 0 {
            let l = d.len() - 1;
            assert(ext_le(s[t.len() - 1].e(), s[t.len() as int].e()));
            assert(d[l].e() == t.last().e());
            if !ext_eq(d.last().e(), s.last().e()) {
                lemma_le_ne(d[l].e(), s.last().e());
                assert(r == d.push(s.last()));
                assert forall|i: int, j: int| 0 <= i < j < r.len() implies ext_lt(#[trigger] r[i].e(), #[trigger] r[j].e()) by {
                    if j == d.len() {
                        if i < l { assert(ext_lt(d[i].e(), d[l].e())); lemma_lt_trans(d[i].e(), d[l].e(), s.last().e()); }
                    } else { assert(ext_lt(d[i].e(), d[j].e())); }
                }
            }
        } else { assert(d.len() == 0); }
    }
}
pub proof fn lemma_dedup_vals(s: Seq<F64>)
    ensures
        forall|i: int| 0 <= i < dedup(s).len() ==> has_val(s, #[trigger] dedup(s)[i]),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_dedup_vals(t);
        let d = dedup(t);
        let r = dedup(s);
        assert forall|i: int| 0 <= i < r.len() implies has_val(s, #[trigger] r[i]) by {
            if i < d.len() {
                assert(r[i] == d[i]);
                assert(has_val(t, d[i]));
                let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).e() == d[i].e();
                assert(s[k].e() == r[i].e());
            } else { assert(s[s.len() - 1].e() == r[i].e()); }
        }
    }
}
