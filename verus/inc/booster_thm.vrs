// ================================================================ what training guarantees
/// the metric of evaluation set j after r + 1 trees
pub open spec fn metric_at<'a, T>(c: Cfg<'a, T>, r: int, j: int) -> F64 {
    metric_of(metric_fn_of(metric_in_use(c.b)), c.e->Some_0@[j].1@, run(c, (r + 1) as nat).ev[j], c.e->Some_0@[j].2@)
}
pub open spec fn watched<'a, T>(c: Cfg<'a, T>, r: int) -> F64 { metric_at(c, r, n_sets(c) - 1) }
/// (P03) as many trees as rounds run; without early stopping every iteration yields one
pub proof fn thm_rounds<'a, T>(c: Cfg<'a, T>, k: nat)
    ensures run(c, k).trees.len() <= k, !run(c, k).stop ==> run(c, k).trees.len() == k, !watching(c) ==> run(c, k).trees.len() == k && !run(c, k).stop && run(c, k).best is None,
        k > 0 ==> run(c, k).trees.len() > 0, run(c, run(c, k).trees.len() as nat) == run(c, k),
    decreases k,
{
    if k > 0 {
        let p = run(c, (k - 1) as nat);
        thm_rounds(c, (k - 1) as nat);
        if !p.stop { assert(run(c, k) == step(c, p)); assert(run(c, k).trees.len() == k); }
    }
}
/// the state with exactly r + 1 trees
pub proof fn lemma_at<'a, T>(c: Cfg<'a, T>, k: nat, r: nat)
    requires r < run(c, k).trees.len(),
    ensures !run(c, r).stop, run(c, r).trees.len() == r, run(c, (r + 1) as nat) == step(c, run(c, r)), r < k,
    decreases k,
{
    thm_rounds(c, k);
    if k > 0 {
        thm_rounds(c, (k - 1) as nat);
        let p = run(c, (k - 1) as nat);
        if r < p.trees.len() { lemma_at(c, (k - 1) as nat, r); }
        else { assert(!p.stop); assert(p.trees.len() == k - 1); assert(r == k - 1); }
    }
}
/// (P16) the history holds the metric of every evaluation set after every tree, one row per tree
pub proof fn thm_history<'a, T>(c: Cfg<'a, T>, k: nat)
    ensures
        run(c, k).hist.len() == run(c, k).trees.len() * n_sets(c),
        forall|r: int, j: int| 0 <= r < run(c, k).trees.len() && 0 <= j < n_sets(c) ==> run(c, k).hist[#[trigger] cell(r, j, n_sets(c) as int)] == metric_at(c, r, j),
    decreases k,
{
    let n = n_sets(c) as int;
    if k == 0 { assert(0 * n == 0) by (nonlinear_arith); }
    else {
        let p = run(c, (k - 1) as nat);
        thm_history(c, (k - 1) as nat);
        if !p.stop {
            thm_rounds(c, (k - 1) as nat);
            let q = p.trees.len() as int;
            assert((q + 1) * n == q * n + n) by (nonlinear_arith);
            assert forall|r: int, j: int| 0 <= r < q + 1 && 0 <= j < n implies run(c, k).hist[#[trigger] cell(r, j, n)] == metric_at(c, r, j) by {
                if r < q {
                    assert(0 <= r * n + j < q * n) by (nonlinear_arith) requires 0 <= r < q, 0 <= j < n;
                    assert(p.hist[cell(r, j, n)] == metric_at(c, r, j));
                } else {
                    assert(run(c, k).hist[q * n + j] == ms_of(c, p)[j]);
                    assert(run(c, k).ev[j] == ev_next(c, p, j));
                }
            }
        }
    }
}
pub open spec fn cell(r: int, j: int, n: int) -> int { r * n + j }
/// what the best iteration is among the first m rounds
pub open spec fn first_best<'a, T>(c: Cfg<'a, T>, m: int, b: int, v: F64) -> bool {
    let maximize = metric_in_use(c.b) is AUC;
    &&& 0 <= b < m && v == watched(c, b)
    &&& forall|r: int| 0 <= r < b ==> better(#[trigger] watched(c, r), v, maximize)
    &&& forall|r: int| 0 <= r < m ==> !better(v, #[trigger] watched(c, r), maximize)
}
/// (P16) the best iteration is the first with the best metric of the last evaluation set; training goes on until the configured number of rounds has passed since
pub proof fn thm_best<'a, T>(c: Cfg<'a, T>, k: nat)
    requires watching(c), k > 0,
    ensures ({
        let s = run(c, k);
        let rounds = c.b.early_stopping_rounds->Some_0;
        &&& s.best is Some && first_best(c, s.trees.len() as int, s.best->Some_0.0, s.best->Some_0.1)
        &&& s.stop <==> (s.trees.len() - 1 - s.best->Some_0.0 >= rounds && s.trees.len() - 1 > s.best->Some_0.0)
        &&& s.stop ==> s.trees.len() - 1 - s.best->Some_0.0 == if rounds == 0 { 1 } else { rounds as int }
    }),
    decreases k,
{
    let p = run(c, (k - 1) as nat);
    thm_rounds(c, k);
    thm_rounds(c, (k - 1) as nat);
    if k > 1 { thm_best(c, (k - 1) as nat); }
    if !p.stop {
        let m = p.trees.len() as int;
        assert(run(c, k) == step(c, p));
        assert(watched(c, m) == last_ms(c, p)) by { assert(run(c, k).ev[n_sets(c) - 1] == ev_next(c, p, n_sets(c) - 1)); }
        if k > 1 {
            let b = p.best->Some_0.0;
            let v = p.best->Some_0.1;
            let w = last_ms(c, p);
            let maximize = metric_in_use(c.b) is AUC;
            if better(v, w, maximize) {
                assert forall|r: int| 0 <= r < m implies better(#[trigger] watched(c, r), w, maximize) by { assert(!better(v, watched(c, r), maximize)); }
                assert forall|r: int| 0 <= r < m + 1 implies !better(w, #[trigger] watched(c, r), maximize) by { if r < m { assert(better(watched(c, r), w, maximize)); } }
            }
        }
    }
}
/// (P21) the outcome depends on the settings, the data and the seed alone: not on what the booster held before, nor on the parallel setting
pub open spec fn same_inputs<'a, T>(c: Cfg<'a, T>, d: Cfg<'a, T>) -> bool {
    &&& same_settings(GradientBooster { parallel: d.b.parallel, log_iterations: d.b.log_iterations, ..c.b }, d.b)
    &&& c.b.initialize_base_score || c.b.base_score == d.b.base_score
    &&& c.y == d.y && c.w == d.w && c.d == d.d && c.s == d.s && c.e == d.e
}
pub proof fn thm_same<'a, T>(c: Cfg<'a, T>, d: Cfg<'a, T>, k: nat)
    requires same_inputs(c, d),
    ensures run(c, k) == run(d, k), base_of(c) == base_of(d), bins_of(c) == bins_of(d),
    decreases k,
{
    if k == 0 { assert(start(c).ev =~= start(d).ev); }
    else {
        thm_same(c, d, (k - 1) as nat);
        let s = run(c, (k - 1) as nat);
        assert(next_tree(c, s) == next_tree(d, s));
        assert forall|j: int| 0 <= j < n_sets(c) implies ev_next(c, s, j) == ev_next(d, s, j) && ms_at(c, s, j) == ms_at(d, s, j) by {}
        assert(step(c, s).ev =~= step(d, s).ev);
        assert(ms_of(c, s) =~= ms_of(d, s));
        if n_sets(c) > 0 { assert(last_ms(c, s) == last_ms(d, s)); }
        assert(best_next(c, s) == best_next(d, s));
        assert(stop_next(c, s) == stop_next(d, s));
    }
}
/// two boosters trained on the same inputs hold the same model, whatever they held before
pub proof fn thm_deterministic<'a, T>(a: GradientBooster, c: Cfg<'a, T>, b: GradientBooster, d: Cfg<'a, T>)
    requires same_inputs(c, d), outcome(a, c, run(c, c.b.iterations as nat)), outcome(b, d, run(d, d.b.iterations as nat)),
    ensures a.trees@ == b.trees@, a.base_score == b.base_score, a.best_iteration == b.best_iteration, a.prediction_iteration == b.prediction_iteration,
        a.evaluation_history is Some <==> b.evaluation_history is Some, a.evaluation_history is Some ==> ({ let h = a.evaluation_history->Some_0; let g = b.evaluation_history->Some_0; h.rows == g.rows && h.cols == g.cols && h.data@ == g.data@ }),
{ thm_same(c, d, c.b.iterations as nat); }
/// (P16) what a booster offers after training: prediction uses exactly the trees up to the best iteration
pub proof fn thm_used<'a, T>(b: GradientBooster, c: Cfg<'a, T>)
    requires outcome(b, c, run(c, c.b.iterations as nat)),
    ensures
        b.trees@.len() <= c.b.iterations,
        !watching(c) ==> b.trees@.len() == c.b.iterations && b.best_iteration is None && b.prediction_iteration is None && b.used() == b.trees@,
        watching(c) && c.b.iterations > 0 ==> b.best_iteration is Some && b.used() == b.trees@.subrange(0, b.best_iteration->Some_0 + 1)
            && first_best(c, b.trees@.len() as int, b.best_iteration->Some_0 as int, watched(c, b.best_iteration->Some_0 as int))
            && (b.trees@.len() < c.b.iterations ==> b.trees@.len() - 1 - b.best_iteration->Some_0 == if c.b.early_stopping_rounds->Some_0 == 0 { 1 } else { c.b.early_stopping_rounds->Some_0 as int }),
        b.evaluation_history is Some ==> forall|r: int, j: int| 0 <= r < b.trees@.len() && 0 <= j < n_sets(c) ==> (#[trigger] b.evaluation_history->Some_0.at(r, j)) == metric_at(c, r, j),
        n_sets(c) > 0 && c.b.iterations > 0 ==> b.evaluation_history is Some,
{
    let k = c.b.iterations as nat;
    assert(b.trees@.len() <= usize::MAX) by { assert(b.trees.len() == b.trees@.len()); }
    thm_rounds(c, k);
    thm_history(c, k);
    if watching(c) && k > 0 { thm_best(c, k); }
    if !watching(c) { assert(b.used() =~= b.trees@); }
    if b.evaluation_history is Some {
        let h = b.evaluation_history->Some_0;
        assert forall|r: int, j: int| 0 <= r < b.trees@.len() && 0 <= j < n_sets(c) implies (#[trigger] h.at(r, j)) == metric_at(c, r, j) by { assert(h.data@[cell(r, j, n_sets(c) as int)] == metric_at(c, r, j)); }
    }
}
pub proof fn lemma_picked(p: Seq<int>, n: usize, q: Seq<usize>, r: Seq<usize>)
    requires p.no_duplicates(), forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < n, q.len() == p.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] q[i] == p[i], r.to_multiset() == q.to_multiset(),
    ensures r.no_duplicates(), r.len() == p.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) < n,
{
    assert(q.no_duplicates());
    q.to_multiset_ensures(); r.to_multiset_ensures();
    assert(r.len() == r.to_multiset().len());
    q.lemma_multiset_has_no_duplicates();
    r.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) < n by {
        assert(r.contains(r[i]));
        assert(r.to_multiset().count(r[i]) > 0);
        assert(q.to_multiset().count(r[i]) > 0);
        assert(q.contains(r[i]));
        let j = choose|j: int| 0 <= j < q.len() && q[j] == r[i];
        assert(q[j] == p[j]);
    }
}
pub proof fn lemma_amount(cols: usize, rate: F64)
    requires rate.fin(), 0real <= rate.v() <= 1real, cols < 0xffff_ffff,
    ensures col_amount(cols, rate) <= cols, col_amount(cols, rate) as real <= cols as real * rate.v() < col_amount(cols, rate) as real + 1real,
{
    let x = int64_(cols as int).mul_(rate);
    lemma_share(cols, rate);
    axiom_floor(x);
    let f = below_int(x);
    lemma_int(f, x.v(), cols as int);
    axiom_trunc(floor_(x));
    lemma_eq(trunc_(floor_(x)) as int, f);
}
pub proof fn lemma_eq(t: int, f: int) requires t as real <= f as real, (f as real) < t as real + 1real, ensures t == f, {}
pub proof fn lemma_int(f: int, x: real, c: int) requires f as real <= x < f as real + 1real, 0real <= x <= c as real, ensures 0 <= f <= c, 0real <= f as real <= c as real, {}
pub proof fn lemma_share(cols: usize, rate: F64)
    requires rate.fin(), 0real <= rate.v() <= 1real,
    ensures ({ let x = int64_(cols as int).mul_(rate); x.fin() && x.v() == cols as real * rate.v() && 0real <= x.v() <= cols as real }),
{
    broadcast use ideal_arith;
    let x = int64_(cols as int).mul_(rate);
    assert(x.fin() && x.v() == cols as real * rate.v());
    assert(0real <= x.v() <= cols as real) by (nonlinear_arith) requires x.v() == cols as real * rate.v(), 0real <= rate.v() <= 1real, cols as real >= 0real;
}
/// (P17) each tree is offered all columns, or the requested number of distinct ones in ascending order
pub proof fn thm_columns(cols: usize, rate: F64, st: RngSt)
    requires rate.fin(), 0real <= rate.v() <= 1real, cols < 0xffff_ffff,
    ensures ({
        let r = columns(cols, rate, st).0;
        &&& r.no_duplicates() && ascending(r) && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) < cols
        &&& r.len() as real <= cols as real * rate.v() < r.len() as real + 1real
    }),
{
    let r = columns(cols, rate, st).0;
    assert(rate.e() == Ext::Fin(rate.v()));
    if rate.v() == 1real {
        assert(cols as real * rate.v() == cols as real) by (nonlinear_arith) requires rate.v() == 1real;
    } else {
        let a = col_amount(cols, rate);
        lemma_amount(cols, rate);
        axiom_picks(st, cols as nat, a);
        let p = picks(st, cols as nat, a);
        let q = Seq::new(p.len(), |i: int| p[i] as usize);
        axiom_usort(q);
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] q[i] == p[i] by { assert(0 <= p[i] < cols); }
        lemma_picked(p, cols, q, r);
    }
}
