// ================================================================ sampler.rs
/*@include ../inc/rng.vrs*/
pub open spec fn u32_(s: RngSt) -> Ext { draw32(s, F32::lit_(0, 1), F32::lit_(1, 1)).e() }
pub open spec fn u64_(s: RngSt) -> Ext { draw64(s, F64::lit_(0, 1), F64::lit_(1, 1)).e() }
/// the items whose flag is `b`, in order
pub open spec fn sel(s: Seq<usize>, m: Seq<bool>, b: bool) -> Seq<usize> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if m[s.len() - 1] == b { sel(s.drop_last(), m, b).push(s.last()) } else { sel(s.drop_last(), m, b) }
}
pub open spec fn in_unit(d: Seq<Ext>) -> bool { forall|k: int| 0 <= k < d.len() ==> (#[trigger] d[k]) is Fin && 0real <= d[k]->Fin_0 < 1real }
/// which draws fall below the rate
pub open spec fn below(d: Seq<Ext>, rate: Ext) -> Seq<bool> { Seq::new(d.len(), |k: int| rate !is NaN && ext_lt(d[k], rate)) }
pub proof fn lemma_sel_ext(s: Seq<usize>, m: Seq<bool>, q: Seq<bool>, b: bool)
    requires m.len() >= s.len(), q.len() >= s.len(), forall|k: int| 0 <= k < s.len() ==> m[k] == q[k],
    ensures sel(s, m, b) == sel(s, q, b),
    decreases s.len(),
{ if s.len() > 0 { lemma_sel_ext(s.drop_last(), m, q, b); } }
pub proof fn lemma_sel_step(s: Seq<usize>, d: Seq<Ext>, rate: Ext, x: usize, e: Ext, b: bool)
    requires s.len() == d.len(),
    ensures sel(s.push(x), below(d.push(e), rate), b) == if (rate !is NaN && ext_lt(e, rate)) == b { sel(s, below(d, rate), b).push(x) } else { sel(s, below(d, rate), b) },
{
    assert(s.push(x).drop_last() =~= s);
    lemma_sel_ext(s, below(d.push(e), rate), below(d, rate), b);
}
/// every row lies in exactly one of the two sets (or in both as often as it was given)
pub proof fn thm_partition(s: Seq<usize>, m: Seq<bool>)
    requires m.len() >= s.len(),
    ensures
        sel(s, m, true).to_multiset().add(sel(s, m, false).to_multiset()) =~= s.to_multiset(),
        sel(s, m, true).len() + sel(s, m, false).len() == s.len(),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        thm_partition(s.drop_last(), m);
        assert(s =~= s.drop_last().push(s.last()));
    }
}
pub open spec fn flags(n: nat, b: bool) -> Seq<bool> { Seq::new(n, |k: int| b) }
pub proof fn thm_everything(s: Seq<usize>, m: Seq<bool>, b: bool)
    requires m.len() >= s.len(), forall|k: int| 0 <= k < s.len() ==> m[k] == b,
    ensures sel(s, m, b) == s, sel(s, m, !b) == Seq::<usize>::empty(),
    decreases s.len(),
{ if s.len() > 0 { thm_everything(s.drop_last(), m, b); assert(s =~= s.drop_last().push(s.last())); } }
/*@struct sampler.rs :: RandomSampler */
/*@struct sampler.rs :: GossSampler */
/// row sampling at random: the draws decide, row after row
pub open spec fn random_rows(idx: Seq<usize>, rate: Ext, chosen: Seq<usize>, excluded: Seq<usize>) -> bool {
    exists|d: Seq<Ext>| d.len() == idx.len() && #[trigger] in_unit(d) && chosen == sel(idx, below(d, rate), true) && excluded == sel(idx, below(d, rate), false)
}
pub proof fn thm_random_rows(idx: Seq<usize>, rate: Ext, chosen: Seq<usize>, excluded: Seq<usize>)
    requires random_rows(idx, rate, chosen, excluded),
    ensures
        chosen.to_multiset().add(excluded.to_multiset()) =~= idx.to_multiset(),
        rate is Fin && rate->Fin_0 >= 1real ==> chosen == idx && excluded.len() == 0,
        rate is Fin && rate->Fin_0 <= 0real ==> excluded == idx && chosen.len() == 0,
{
    let d = choose|d: Seq<Ext>| d.len() == idx.len() && #[trigger] in_unit(d) && chosen == sel(idx, below(d, rate), true) && excluded == sel(idx, below(d, rate), false);
    thm_partition(idx, below(d, rate));
    if rate is Fin && rate->Fin_0 >= 1real { thm_everything(idx, below(d, rate), true); }
    if rate is Fin && rate->Fin_0 <= 0real { thm_everything(idx, below(d, rate), false); }
}
impl RandomSampler {
/*@fn sampler.rs :: RandomSampler :: new
ret r
spec:
    ensures r.subsample == subsample,
*/
/*@fn sampler.rs :: Sampler for RandomSampler :: sample
lit f32
std gen_range
ret r
spec:
    ensures
        random_rows(index@, old(self).subsample.e(), r.0@, r.1@),
        final(_grad)@ == old(_grad)@, final(_hess)@ == old(_hess)@, *final(self) == *old(self),
start:
    let ghost mut d: Seq<Ext> = Seq::empty();
    let ghost idx = index@;
    let ghost rate = self.subsample.e();
    proof { assert(idx.subrange(0, 0) =~= Seq::<usize>::empty()); }
loop 1 iter it:
    invariant
        index@ == idx, subsample.e() == rate, it.seq().len() == idx.len(), forall|k: int| 0 <= k < idx.len() ==> *(#[trigger] it.seq()[k]) == idx[k],
        d.len() == it.index@, in_unit(d),
        chosen@ == sel(idx.subrange(0, it.index@), below(d, rate), true), excluded@ == sel(idx.subrange(0, it.index@), below(d, rate), false),
loop 1 start:
    proof {
        let k = it.index@;
        assert(idx.subrange(0, k + 1) =~= idx.subrange(0, k).push(idx[k]));
        lemma_sel_step(idx.subrange(0, k), d, rate, idx[k], u32_(rng.st()), true);
        lemma_sel_step(idx.subrange(0, k), d, rate, idx[k], u32_(rng.st()), false);
        d = d.push(u32_(rng.st()));
    }
tail:
    proof { assert(idx.subrange(0, idx.len() as int) =~= idx); }
*/
}
pub open spec fn iota(n: nat) -> Seq<usize> { Seq::new(n, |i: int| i as usize) }
pub open spec fn size(x: F32) -> Ext { ext_abs(x.e()) }
pub open spec fn by_size(g: Seq<F32>, p: Seq<usize>) -> bool {
    &&& p.to_multiset() == iota(g.len()).to_multiset()
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> ext_le(size(g[(#[trigger] p[j]) as int]), size(g[(#[trigger] p[i]) as int]))
}
/// a value before and after: scaled if it was drawn
pub open spec fn scaled(x: F32, y: F32, f: F32, m: bool) -> bool { y == if m { x.mul_(f) } else { x } }
/// gradient based sampling: p lists the rows by size of the gradient, d are the draws for those after the first `top`
pub open spec fn goss(p: Seq<usize>, d: Seq<Ext>, top: int, rate: Ext, f: F32, g0: Seq<F32>, h0: Seq<F32>, g1: Seq<F32>, h1: Seq<F32>, used: Seq<usize>) -> bool {
    &&& by_size(g0, p) && 0 <= top <= p.len() && d.len() == p.len() - top && in_unit(d)
    &&& used == p.subrange(0, top) + sel(p.subrange(top, p.len() as int), below(d, rate), true)
    &&& g1.len() == g0.len() && h1.len() == h0.len()
    &&& forall|k: int| 0 <= k < p.len() ==> scaled(g0[(#[trigger] p[k]) as int], g1[p[k] as int], f, k >= top && below(d, rate)[k - top])
            && scaled(h0[p[k] as int], h1[p[k] as int], f, k >= top && below(d, rate)[k - top])
}
pub proof fn lemma_perm(g: Seq<F32>, p: Seq<usize>)
    requires p.to_multiset() == iota(g.len()).to_multiset(), g.len() <= usize::MAX,
    ensures p.len() == g.len(), forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]) < g.len(), p.no_duplicates(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let a = iota(g.len());
    assert(p.len() == p.to_multiset().len() && a.len() == a.to_multiset().len());
    assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]) < g.len() by { assert(p.contains(p[k])); assert(a.to_multiset().count(p[k]) > 0); assert(a.contains(p[k])); }
    assert(a.no_duplicates());
    a.lemma_multiset_has_no_duplicates();
    p.lemma_multiset_has_no_duplicates_conv();
}
/// nothing is picked twice, and everything picked is a row
pub proof fn lemma_sel_distinct(s: Seq<usize>, m: Seq<bool>, b: bool)
    requires m.len() >= s.len(), s.no_duplicates(),
    ensures sel(s, m, b).no_duplicates(), forall|x: usize| #[trigger] sel(s, m, b).contains(x) ==> s.contains(x),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_sel_distinct(t, m, b);
        let q = sel(t, m, b);
        assert(!t.contains(s.last()));
        assert forall|x: usize| #[trigger] sel(s, m, b).contains(x) implies s.contains(x) by {
            if x != s.last() {
                let r = sel(s, m, b);
                let i = choose|i: int| 0 <= i < r.len() && r[i] == x;
                if r.len() == q.len() { assert(q[i] == x); } else { assert(i < q.len()); assert(q[i] == x); }
                assert(q.contains(x));
                let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
                assert(s[j] == x);
            } else { assert(s[s.len() - 1] == x); }
        }
        if m[s.len() - 1] == b { assert(!q.contains(s.last())); }
    }
}
pub proof fn thm_goss(p: Seq<usize>, d: Seq<Ext>, top: int, rate: Ext, f: F32, g0: Seq<F32>, h0: Seq<F32>, g1: Seq<F32>, h1: Seq<F32>, used: Seq<usize>)
    requires goss(p, d, top, rate, f, g0, h0, g1, h1, used), g0.len() <= usize::MAX,
    ensures
        used.no_duplicates(),
        forall|k: int| 0 <= k < used.len() ==> (#[trigger] used[k]) < g0.len(),
        forall|i: int, j: int| 0 <= i < top <= j < p.len() ==> ext_le(size(g0[(#[trigger] p[j]) as int]), size(g0[(#[trigger] p[i]) as int])),
{
    lemma_perm(g0, p);
    let a = p.subrange(0, top);
    let s = p.subrange(top, p.len() as int);
    let q = sel(s, below(d, rate), true);
    assert(s.no_duplicates());
    lemma_sel_distinct(s, below(d, rate), true);
    assert forall|k: int| 0 <= k < used.len() implies (#[trigger] used[k]) < g0.len() by {
        if k >= top { assert(q[k - top] == used[k]); assert(q.contains(used[k])); let j = choose|j: int| 0 <= j < s.len() && s[j] == used[k]; assert(p[top + j] == used[k]); }
        else { assert(a[k] == used[k]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < used.len() implies used[i] != used[j] by {
        if i < top && j >= top {
            assert(q[j - top] == used[j]); assert(q.contains(used[j]));
            let l = choose|l: int| 0 <= l < s.len() && s[l] == used[j];
            assert(p[top + l] == used[j]); assert(p[i] == used[i]);
        } else if j < top { assert(p[i] == used[i] && p[j] == used[j]); }
        else { assert(q[i - top] == used[i] && q[j - top] == used[j]); }
    }
}
pub open spec fn goss_rows(a: F64, b: F64, g0: Seq<F32>, h0: Seq<F32>, g1: Seq<F32>, h1: Seq<F32>, used: Seq<usize>) -> bool {
    exists|p: Seq<usize>, d: Seq<Ext>, top: int, rate: Ext, f: F32| #[trigger] goss(p, d, top, rate, f, g0, h0, g1, h1, used) && goss_params(a, b, g0.len() as int, top, rate, f)
}
/// the share of rows with the largest gradients, the share of the others, and their factor
pub open spec fn goss_params(a: F64, b: F64, n: int, top: int, rate: Ext, f: F32) -> bool {
    &&& top as real <= a.v() * (n as real) < top as real + 1real
    &&& f.e() == Ext::Fin((1real - a.v()) / b.v())
    &&& top < n ==> exists|m: int| #[trigger] share_n(m, b, n) && rate == Ext::Fin(m as real / (n - top) as real)
}
pub open spec fn share_n(m: int, b: F64, n: int) -> bool { m as real <= b.v() * (n as real) < m as real + 1real }
impl GossSampler {
/*@fn sampler.rs :: GossSampler :: new
ret r
spec:
    ensures r.a == a, r.b == b,
*/
/*@fn sampler.rs :: Sampler for GossSampler :: sample
lit f64
std gen_range sort_unstable_by to_vec=vx_to_owned
fcast (self.a * cvt64(index.len())); (self.b * cvt64(index.len()))
ret r
spec:
    requires
        old(grad)@.len() == index@.len(), old(hess)@.len() == index@.len(), index@.len() < 0xffff_ffff,
        forall|k: int| 0 <= k < old(grad)@.len() ==> !(#[trigger] old(grad)@[k]).nan(),
        old(self).a.fin(), 0real <= old(self).a.v() <= 1real, old(self).b.fin(), 0real < old(self).b.v() <= 1real,
    ensures
        goss_rows(old(self).a, old(self).b, old(grad)@, old(hess)@, final(grad)@, final(hess)@, r.0@),
        r.1@.len() == 0, *final(self) == *old(self),
start:
    broadcast use ideal_arith;
    let ghost n = index@.len() as int;
    let ghost (g0, h0) = (grad@, hess@);
    let ghost (a0, b0) = (self.a.v(), self.b.v());
    let ghost mut d: Seq<Ext> = Seq::empty();
    proof {
        assert(0real <= a0 * (n as real) <= n as real) by (nonlinear_arith) requires 0real <= a0 <= 1real, n >= 0;
        assert(0real <= b0 * (n as real) <= n as real) by (nonlinear_arith) requires 0real <= b0 <= 1real, n >= 0;
    }
closure 1:
    |p1__: &usize, p2__: &usize| -> (o: Ordering) requires *p1__ < grad@.len(), *p2__ < grad@.len(), grad@ == g0, forall|k: int| 0 <= k < grad@.len() ==> !(#[trigger] grad@[k]).nan(),
        ensures ext_lt(size(g0[*p2__ as int]), size(g0[*p1__ as int])) ==> o is Less, ext_lt(size(g0[*p1__ as int]), size(g0[*p2__ as int])) ==> o is Greater
after "collect::<Vec<_>>();":
    proof { assert(sorted@ =~= iota(n as nat)); }
before "let mut used_set":
    let ghost p = sorted@;
    proof {
        lemma_perm(g0, p);
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies ext_le(size(g0[(#[trigger] p[j]) as int]), size(g0[(#[trigger] p[i]) as int])) by { assert(!g0[p[i] as int].nan() && !g0[p[j] as int].nan()); }
        let y = self.b.mul_(int64_(n));
        assert(y.fin());
        assert(y.v() == self.b.v() * (n as real));
        assert(0real <= y.v() < usize::MAX as real);
        assert(rand_n as real <= y.v() < rand_n as real + 1real);
        assert(share_n(rand_n as int, self.b, n));
    }
before "for i in &sorted":
    let ghost rate = subsample.e();
    let ghost top = top_n as int;
    let ghost s = p.subrange(top, n);
    proof { assert(s.subrange(0, 0) =~= Seq::<usize>::empty()); assert(used_set@ + sel(s.subrange(0, 0), below(d, rate), true) =~= used_set@); }
loop 1 iter it:
    invariant
        p == sorted@, p.len() == n, by_size(g0, p), p.no_duplicates(), forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]) < n, 0 <= top <= n, s == p.subrange(top, n), g0.len() == n, h0.len() == n,
        rate == subsample.e(), grad@.len() == n, hess@.len() == n,
        it.seq().len() == s.len(), forall|k: int| 0 <= k < s.len() ==> *(#[trigger] it.seq()[k]) == s[k],
        d.len() == it.index@, in_unit(d),
        used_set@ == p.subrange(0, top) + sel(s.subrange(0, it.index@), below(d, rate), true),
        forall|k: int| 0 <= k < p.len() ==> scaled(g0[(#[trigger] p[k]) as int], grad@[p[k] as int], fact, top <= k < top + it.index@ && below(d, rate)[k - top])
            && scaled(h0[p[k] as int], hess@[p[k] as int], fact, top <= k < top + it.index@ && below(d, rate)[k - top]),
loop 1 start:
    proof {
        let k = it.index@;
        assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k]));
        assert(s[k] == p[top + k]);
        lemma_sel_step(s.subrange(0, k), d, rate, s[k], u64_(rng.st()), true);
        d = d.push(u64_(rng.st()));
    }
tail:
    proof {
        assert(s.subrange(0, s.len() as int) =~= s);
        assert(goss(p, d, top, rate, fact, g0, h0, grad@, hess@, used_set@));
        assert(top as real <= self.a.v() * (n as real) < top as real + 1real);
        if top < n { assert(share_n(rand_n as int, self.b, n)); assert(rate == Ext::Fin(rand_n as int as real / (n - top) as real)); }
        assert(fact.e() == Ext::Fin((1real - self.a.v()) / self.b.v()));
        assert(goss_params(self.a, self.b, n, top, rate, fact));
    }
*/
}
