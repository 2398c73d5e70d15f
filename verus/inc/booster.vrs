// ================================================================ gradientbooster.rs : training
pub type EvaluationData<'a> = (Matrix<'a, F64>, &'a [F64], &'a [F64]);
pub type TrainingEvaluationData<'a> = (&'a Matrix<'a, F64>, &'a [F64], &'a [F64], Vec<F64>);
/*@struct binning.rs :: BinnedData */
pub trait Splitter: Sized {}
/// some splitter: fit_trees only hands it on to Tree::fit
#[verifier::external_body]
pub struct AnySplitter { k: u64 }
impl Splitter for AnySplitter {}
// ---- the functions training calls, as functions of their arguments (their contracts are proved in the units named)
/// objectives.rs : derivatives and initial score (unit objectives)
#[derive(Clone, Copy)]
pub enum ObjFn { LogLoss, SquaredLoss }
#[derive(Clone, Copy)]
pub enum InitFn { LogLoss, SquaredLoss }
#[derive(Clone, Copy)]
pub enum MetricFn { AUC, LogLoss, RootMeanSquaredLogError, RootMeanSquaredError }
pub uninterp spec fn gh_of(f: ObjFn, y: Seq<F64>, yhat: Seq<F64>, w: Seq<F64>) -> (Seq<F32>, Seq<F32>);
pub uninterp spec fn init_of(f: InitFn, y: Seq<F64>, w: Seq<F64>) -> F64;
pub uninterp spec fn metric_of(f: MetricFn, y: Seq<F64>, yhat: Seq<F64>, w: Seq<F64>) -> F64;
#[verifier::external_body]
pub fn vx_gh(f: ObjFn, y: &[F64], yhat: &[F64], w: &[F64]) -> (r: (Vec<F32>, Vec<F32>))
    ensures r.0@ == gh_of(f, y@, yhat@, w@).0, r.1@ == gh_of(f, y@, yhat@, w@).1,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_init(f: InitFn, y: &[F64], w: &[F64]) -> (r: F64) ensures r == init_of(f, y@, w@), { unimplemented!() }
#[verifier::external_body]
pub fn vx_metric(f: MetricFn, y: &[F64], yhat: &[F64], w: &[F64]) -> (r: F64) ensures r == metric_of(f, y@, yhat@, w@), { unimplemented!() }
pub open spec fn obj_fn(o: ObjectiveType) -> ObjFn { match o { ObjectiveType::LogLoss => ObjFn::LogLoss, ObjectiveType::SquaredLoss => ObjFn::SquaredLoss } }
pub open spec fn init_fn(o: ObjectiveType) -> InitFn { match o { ObjectiveType::LogLoss => InitFn::LogLoss, ObjectiveType::SquaredLoss => InitFn::SquaredLoss } }
pub open spec fn metric_fn_of(m: Metric) -> MetricFn {
    match m { Metric::AUC => MetricFn::AUC, Metric::LogLoss => MetricFn::LogLoss, Metric::RootMeanSquaredLogError => MetricFn::RootMeanSquaredLogError, Metric::RootMeanSquaredError => MetricFn::RootMeanSquaredError }
}
pub open spec fn metric_in_use(b: GradientBooster) -> Metric {
    match b.evaluation_metric { Some(m) => m, None => match b.objective_type { ObjectiveType::LogLoss => Metric::LogLoss, ObjectiveType::SquaredLoss => Metric::RootMeanSquaredLogError } }
}
/*@fn objective.rs :: gradient_hessian_callables
defun LogLoss::calc_grad_hess=ObjFn::LogLoss SquaredLoss::calc_grad_hess=ObjFn::SquaredLoss
ret r
spec:
    ensures r == obj_fn(*objective_type),
*/
/*@fn objective.rs :: calc_init_callables
defun LogLoss::calc_init=InitFn::LogLoss SquaredLoss::calc_init=InitFn::SquaredLoss
retty InitFn
ret r
spec:
    ensures r == init_fn(*objective_type),
*/
pub struct LogLoss {}
pub struct SquaredLoss {}
impl LogLoss {
/*@fn objective.rs :: ObjectiveFunction for LogLoss :: default_metric
ret r
spec:
    ensures r is LogLoss,
*/
}
impl SquaredLoss {
/*@fn objective.rs :: ObjectiveFunction for SquaredLoss :: default_metric
ret r
spec:
    ensures r is RootMeanSquaredLogError,
*/
}
pub struct AUCMetric {}
pub struct LogLossMetric {}
pub struct RootMeanSquaredLogErrorMetric {}
pub struct RootMeanSquaredErrorMetric {}
impl AUCMetric {
/*@fn metric.rs :: EvaluationMetric for AUCMetric :: maximize
ret r
spec:
    ensures r,
*/
}
impl LogLossMetric {
/*@fn metric.rs :: EvaluationMetric for LogLossMetric :: maximize
ret r
spec:
    ensures !r,
*/
}
impl RootMeanSquaredLogErrorMetric {
/*@fn metric.rs :: EvaluationMetric for RootMeanSquaredLogErrorMetric :: maximize
ret r
spec:
    ensures !r,
*/
}
impl RootMeanSquaredErrorMetric {
/*@fn metric.rs :: EvaluationMetric for RootMeanSquaredErrorMetric :: maximize
ret r
spec:
    ensures !r,
*/
}
/*@fn metric.rs :: metric_callables
defun AUCMetric::calculate_metric=MetricFn::AUC LogLossMetric::calculate_metric=MetricFn::LogLoss RootMeanSquaredLogErrorMetric::calculate_metric=MetricFn::RootMeanSquaredLogError RootMeanSquaredErrorMetric::calculate_metric=MetricFn::RootMeanSquaredError
ret r
spec:
    ensures r.0 == metric_fn_of(*metric_type), r.1 == (*metric_type is AUC),
*/
/// b is better than a: NaN never is, anything else beats NaN
pub open spec fn better(a: F64, b: F64, maximize: bool) -> bool {
    !b.nan() && (a.nan() || if maximize { ext_lt(a.e(), b.e()) } else { ext_lt(b.e(), a.e()) })
}
/*@fn metric.rs :: is_comparison_better
ret r
spec:
    ensures r == better(value, comparison, maximize),
*/
/// binning.rs (unit binning)
pub uninterp spec fn binned(d: Matrix<F64>, w: Seq<F64>, nbins: u16, missing: F64) -> Result<BinnedData<F64>, ForustError>;
#[verifier::external_body]
pub fn bin_matrix(data: &Matrix<F64>, sample_weight: &[F64], nbins: u16, missing: F64) -> (r: Result<BinnedData<F64>, ForustError>)
    ensures r == binned(*data, sample_weight@, nbins, missing), r is Ok ==> r->Ok_0.binned_data@.len() == data.rows * data.cols && data.rows * data.cols <= usize::MAX,
{ unimplemented!() }
/// sampler.rs (unit sampler)
pub ghost struct Sampled { pub idx: Seq<usize>, pub g: Seq<F32>, pub h: Seq<F32>, pub st: RngSt }
pub uninterp spec fn sampled(m: SampleMethod, s: F32, a: F64, b: F64, st: RngSt, idx: Seq<usize>, g: Seq<F32>, h: Seq<F32>) -> Sampled;
pub uninterp spec fn seeded(seed: u64) -> RngSt;
impl StdRng {
    #[verifier::external_body]
    pub fn seed_from_u64(seed: u64) -> (r: StdRng) ensures r.st() == seeded(seed), { unimplemented!() }
}
/// rand : choose_multiple picks different positions, as many as asked for if there are as many
pub uninterp spec fn picks(st: RngSt, n: nat, amount: usize) -> Seq<int>;
pub uninterp spec fn after_picks(st: RngSt, n: nat, amount: usize) -> RngSt;
pub open spec fn picks_ok(p: Seq<int>, n: nat, amount: usize) -> bool {
    &&& p.no_duplicates() && p.len() == if amount <= n { amount as int } else { n as int }
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < n
}
pub trait VxPick<'a>: Sized {
    #[verifier::prophetic]
    spec fn vx_from(&self) -> Seq<&'a usize>;
    fn vx_choose_multiple(self, rng: &mut StdRng, amount: usize) -> (r: Vec<&'a usize>)
        ensures ({
            let p = picks(old(rng).st(), self.vx_from().len(), amount);
            &&& picks_ok(p, self.vx_from().len(), amount) && r@.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] r@[i] == self.vx_from()[p[i]]
            &&& final(rng).st() == after_picks(old(rng).st(), self.vx_from().len(), amount)
        });
}
impl<'a> VxPick<'a> for core::slice::Iter<'a, usize> {
    #[verifier::prophetic]
    open spec fn vx_from(&self) -> Seq<&'a usize> { vstd::std_specs::iter::IteratorSpec::remaining(self) }
    #[verifier::external_body]
    fn vx_choose_multiple(self, rng: &mut StdRng, amount: usize) -> (r: Vec<&'a usize>) { unimplemented!() }
}
/// sorting integers
pub uninterp spec fn usort(s: Seq<usize>) -> Seq<usize>;
pub open spec fn ascending(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub trait VxSortU { fn vx_sort(&mut self); }
impl VxSortU for Vec<usize> {
    #[verifier::external_body]
    fn vx_sort(&mut self)
        ensures final(self)@ == usort(old(self)@), usort(old(self)@).to_multiset() == old(self)@.to_multiset(), ascending(usort(old(self)@)),
    { unimplemented!() }
}
pub uninterp spec fn floor_(x: F64) -> F64;
pub uninterp spec fn below_int(x: F64) -> int;
#[verifier::external_body]
pub proof fn axiom_floor(x: F64) requires x.fin(), ensures floor_(x).fin(), floor_(x).v() == below_int(x) as real, below_int(x) as real <= x.v() < below_int(x) as real + 1real, { unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_trunc(x: F64) requires x.fin(), 0real <= x.v() < usize::MAX as real, ensures trunc_(x) as real <= x.v() < trunc_(x) as real + 1real, { unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_picks(st: RngSt, n: nat, amount: usize) ensures picks_ok(picks(st, n, amount), n, amount), { unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_usort(s: Seq<usize>) ensures usort(s).to_multiset() == s.to_multiset(), ascending(usort(s)), { unimplemented!() }
pub trait VxFloor { fn vx_floor(self) -> F64; }
impl VxFloor for F64 {
    #[verifier::external_body]
    fn vx_floor(self) -> (r: F64) ensures r == floor_(self), { unimplemented!() }
}
/// tree.rs (units fit_imp, fit_brn; predict)
pub ghost struct FitArgs<T> {
    pub bins: Seq<u16>, pub rows: usize, pub cols: usize, pub idx: Seq<usize>, pub ci: Seq<usize>, pub cuts: JaggedMatrix<F64>, pub g: Seq<F32>, pub h: Seq<F32>,
    pub s: T, pub max_leaves: usize, pub max_depth: usize, pub method: SampleMethod, pub policy: GrowPolicy,
}
pub uninterp spec fn tree_fit<T>(a: FitArgs<T>) -> Tree;
pub uninterp spec fn preds(t: Tree, d: Matrix<F64>, missing: F64) -> Seq<F64>;
impl Tree {
/*@fn tree.rs :: Tree :: new
ret r
spec:
    ensures r.nodes@.len() == 0,
*/
    #[verifier::external_body]
    pub fn fit<T: Splitter>(&mut self, data: &Matrix<u16>, index: Vec<usize>, col_index: &[usize], cuts: &JaggedMatrix<F64>, grad: &[F32], hess: &[F32], splitter: &T, max_leaves: usize, max_depth: usize, parallel: bool, sample_method: &SampleMethod, grow_policy: &GrowPolicy)
        requires old(self).nodes@.len() == 0, data.wf(),
        ensures *final(self) == tree_fit(FitArgs { bins: data.data@, rows: data.rows, cols: data.cols, idx: index@, ci: col_index@, cuts: *cuts, g: grad@, h: hess@, s: *splitter, max_leaves, max_depth, method: *sample_method, policy: *grow_policy }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn predict(&self, data: &Matrix<F64>, parallel: bool, missing: &F64) -> (r: Vec<F64>) ensures r@ == preds(*self, *data, *missing), r@.len() == data.rows, { unimplemented!() }
}
pub open spec fn plus(a: Seq<F64>, p: Seq<F64>) -> Seq<F64> { Seq::new(a.len(), |k: int| if k < p.len() { a[k].add_(p[k]) } else { a[k] }) }
pub open spec fn filled(x: F64, n: nat) -> Seq<F64> { Seq::new(n, |k: int| x) }
// ---- training as a state machine
pub ghost struct Cfg<'a, T> { pub b: GradientBooster, pub y: Seq<F64>, pub w: Seq<F64>, pub d: Matrix<'a, F64>, pub s: T, pub e: Option<Vec<EvaluationData<'a>>> }
pub ghost struct St {
    pub trees: Seq<Tree>, pub rng: RngSt, pub yhat: Seq<F64>, pub grad: Seq<F32>, pub hess: Seq<F32>,
    pub ev: Seq<Seq<F64>>, pub hist: Seq<F64>, pub best: Option<(int, F64)>, pub stop: bool,
}
pub open spec fn n_sets<'a, T>(c: Cfg<'a, T>) -> nat { if c.e is Some { c.e->Some_0@.len() } else { 0 } }
pub open spec fn base_of<'a, T>(c: Cfg<'a, T>) -> F64 { if c.b.initialize_base_score { init_of(init_fn(c.b.objective_type), c.y, c.w) } else { c.b.base_score } }
pub open spec fn start<'a, T>(c: Cfg<'a, T>) -> St {
    let yhat = filled(base_of(c), c.y.len());
    let gh = gh_of(obj_fn(c.b.objective_type), c.y, yhat, c.w);
    St { trees: Seq::empty(), rng: seeded(c.b.seed), yhat, grad: gh.0, hess: gh.1, ev: Seq::new(n_sets(c), |k: int| filled(base_of(c), c.e->Some_0@[k].1@.len())), hist: Seq::empty(), best: None, stop: false }
}
/// the number of columns a tree is offered
pub open spec fn col_amount(cols: usize, rate: F64) -> usize { trunc_(floor_(int64_(cols as int).mul_(rate))) }
pub open spec fn all_cols(n: usize) -> Seq<usize> { Seq::new(n as nat, |i: int| i as usize) }
pub open spec fn columns(cols: usize, rate: F64, st: RngSt) -> (Seq<usize>, RngSt) {
    if rate.e() == Ext::Fin(1real) { (all_cols(cols), st) }
    else {
        let p = picks(st, cols as nat, col_amount(cols, rate));
        (usort(Seq::new(p.len(), |i: int| p[i] as usize)), after_picks(st, cols as nat, col_amount(cols, rate)))
    }
}
pub open spec fn draw<'a, T>(c: Cfg<'a, T>, s: St) -> Sampled { sampled(c.b.sample_method, c.b.subsample, c.b.top_rate, c.b.other_rate, s.rng, c.d.index@, s.grad, s.hess) }
pub open spec fn cols_of<'a, T>(c: Cfg<'a, T>, s: St) -> (Seq<usize>, RngSt) { columns(c.d.cols, c.b.colsample_bytree, draw(c, s).st) }
pub open spec fn bins_of<'a, T>(c: Cfg<'a, T>) -> BinnedData<F64> { binned(c.d, c.w, c.b.nbins, c.b.missing)->Ok_0 }
/// the next tree: grown on the sampled rows and columns with the current derivatives and the booster's own limits
pub open spec fn next_tree<'a, T>(c: Cfg<'a, T>, s: St) -> Tree {
    tree_fit(FitArgs {
        bins: bins_of(c).binned_data@, rows: c.d.rows, cols: c.d.cols, idx: draw(c, s).idx, ci: cols_of(c, s).0, cuts: bins_of(c).cuts, g: draw(c, s).g, h: draw(c, s).h,
        s: c.s, max_leaves: c.b.max_leaves, max_depth: c.b.max_depth, method: c.b.sample_method, policy: c.b.grow_policy,
    })
}
pub open spec fn ev_next<'a, T>(c: Cfg<'a, T>, s: St, k: int) -> Seq<F64> { plus(s.ev[k], preds(next_tree(c, s), c.e->Some_0@[k].0, c.b.missing)) }
pub open spec fn ms_at<'a, T>(c: Cfg<'a, T>, s: St, k: int) -> F64 { metric_of(metric_fn_of(metric_in_use(c.b)), c.e->Some_0@[k].1@, ev_next(c, s, k), c.e->Some_0@[k].2@) }
/// the metric of every evaluation set after the next tree
pub open spec fn ms_of<'a, T>(c: Cfg<'a, T>, s: St) -> Seq<F64> { Seq::new(n_sets(c), |k: int| ms_at(c, s, k)) }
pub open spec fn last_ms<'a, T>(c: Cfg<'a, T>, s: St) -> F64 { ms_at(c, s, n_sets(c) - 1) }
pub open spec fn watching<'a, T>(c: Cfg<'a, T>) -> bool { n_sets(c) > 0 && c.b.early_stopping_rounds is Some }
pub open spec fn improves<'a, T>(c: Cfg<'a, T>, s: St) -> bool { s.best is None || better(s.best->Some_0.1, last_ms(c, s), metric_in_use(c.b) is AUC) }
pub open spec fn best_next<'a, T>(c: Cfg<'a, T>, s: St) -> Option<(int, F64)> { if watching(c) && improves(c, s) { Some((s.trees.len() as int, last_ms(c, s))) } else { s.best } }
pub open spec fn stop_next<'a, T>(c: Cfg<'a, T>, s: St) -> bool { watching(c) && !improves(c, s) && s.trees.len() - s.best->Some_0.0 >= c.b.early_stopping_rounds->Some_0 }
pub open spec fn step<'a, T>(c: Cfg<'a, T>, s: St) -> St {
    let yhat = plus(s.yhat, preds(next_tree(c, s), c.d, c.b.missing));
    let gh = gh_of(obj_fn(c.b.objective_type), c.y, yhat, c.w);
    St {
        trees: s.trees.push(next_tree(c, s)), rng: cols_of(c, s).1, yhat, grad: gh.0, hess: gh.1,
        ev: Seq::new(n_sets(c), |k: int| ev_next(c, s, k)), hist: s.hist + ms_of(c, s), best: best_next(c, s), stop: stop_next(c, s),
    }
}
pub open spec fn run<'a, T>(c: Cfg<'a, T>, k: nat) -> St decreases k {
    if k == 0 { start(c) } else { let s = run(c, (k - 1) as nat); if s.stop { s } else { step(c, s) } }
}
pub proof fn lemma_stopped<'a, T>(c: Cfg<'a, T>, k: nat, n: nat)
    requires k <= n, run(c, k).stop,
    ensures run(c, n) == run(c, k),
    decreases n,
{ if n > k { lemma_stopped(c, k, (n - 1) as nat); } }
/// only the outcome of training differs
pub open spec fn same_settings(a: GradientBooster, b: GradientBooster) -> bool {
    &&& a.objective_type == b.objective_type && a.iterations == b.iterations && a.learning_rate == b.learning_rate && a.max_depth == b.max_depth && a.max_leaves == b.max_leaves
    &&& a.l1 == b.l1 && a.l2 == b.l2 && a.gamma == b.gamma && a.max_delta_step == b.max_delta_step && a.min_leaf_weight == b.min_leaf_weight && a.nbins == b.nbins
    &&& a.parallel == b.parallel && a.allow_missing_splits == b.allow_missing_splits && a.monotone_constraints == b.monotone_constraints && a.subsample == b.subsample
    &&& a.top_rate == b.top_rate && a.other_rate == b.other_rate && a.colsample_bytree == b.colsample_bytree && a.seed == b.seed && a.missing == b.missing
    &&& a.create_missing_branch == b.create_missing_branch && a.sample_method == b.sample_method && a.grow_policy == b.grow_policy && a.evaluation_metric == b.evaluation_metric
    &&& a.early_stopping_rounds == b.early_stopping_rounds && a.initialize_base_score == b.initialize_base_score && a.terminate_missing_features == b.terminate_missing_features
    &&& a.missing_node_treatment == b.missing_node_treatment && a.log_iterations == b.log_iterations && a.force_children_to_bound_parent == b.force_children_to_bound_parent
    &&& a.metadata == b.metadata
}
/// the booster holds the outcome s
pub open spec fn outcome<'a, T>(b: GradientBooster, c: Cfg<'a, T>, s: St) -> bool {
    &&& same_settings(b, c.b) && b.base_score == base_of(c) && b.trees@ == s.trees
    &&& (b.evaluation_history is Some <==> c.e is Some && s.trees.len() > 0)
    &&& b.evaluation_history is Some ==> ({ let h = b.evaluation_history->Some_0; h.wf() && h.cols == n_sets(c) && h.rows == s.trees.len() && h.data@ == s.hist })
    &&& match s.best { Some(x) => b.best_iteration == Some(x.0 as usize) && b.prediction_iteration == Some((x.0 + 1) as usize) && 0 <= x.0 < s.trees.len(), None => b.best_iteration is None && b.prediction_iteration is None }
}
pub open spec fn sets_are<'a, T>(v: Option<Vec<TrainingEvaluationData<'a>>>, c: Cfg<'a, T>, ev: Seq<Seq<F64>>) -> bool {
    &&& (v is Some <==> c.e is Some) && ev.len() == n_sets(c)
    &&& v is Some ==> v->Some_0@.len() == n_sets(c) && forall|k: int| 0 <= k < n_sets(c) ==> set_is(#[trigger] v->Some_0@[k], c.e->Some_0@[k], ev[k])
}
pub open spec fn set_is<'a>(a: TrainingEvaluationData<'a>, e: EvaluationData<'a>, yhat: Seq<F64>) -> bool { *a.0 == e.0 && a.1@ == e.1@ && a.2@ == e.2@ && a.3@ == yhat }
pub open spec fn set_start<'a>(a: TrainingEvaluationData<'a>, e: EvaluationData<'a>, x: F64) -> bool { *a.0 == e.0 && a.1@ == e.1@ && a.2@ == e.2@ && a.3@.len() == e.1@.len() && forall|k: int| 0 <= k < a.3@.len() ==> #[trigger] a.3@[k] == x }
pub open spec fn best_is(b: GradientBooster, m: Option<F64>, best: Option<(int, F64)>) -> bool {
    match best {
        Some(x) => b.best_iteration == Some(x.0 as usize) && b.prediction_iteration == Some((x.0 + 1) as usize) && 0 <= x.0 < usize::MAX && m == Some(x.1),
        None => b.best_iteration is None && b.prediction_iteration is None && m is None,
    }
}
pub open spec fn at_step<'a, T>(b: GradientBooster, c: Cfg<'a, T>, s: St, rng: StdRng, yhat: Seq<F64>, grad: Seq<F32>, hess: Seq<F32>, m: Option<F64>) -> bool {
    outcome(b, c, s) && rng.st() == s.rng && yhat == s.yhat && grad == s.grad && hess == s.hess && best_is(b, m, s.best)
}
/// predictions keep the length of their labels
pub proof fn lemma_lens<'a, T>(c: Cfg<'a, T>, k: nat)
    ensures run(c, k).yhat.len() == c.y.len(), run(c, k).ev.len() == n_sets(c), forall|j: int| 0 <= j < n_sets(c) ==> (#[trigger] run(c, k).ev[j]).len() == c.e->Some_0@[j].1@.len(),
    decreases k,
{ if k > 0 { lemma_lens(c, (k - 1) as nat); } }
impl GradientBooster {
    pub open spec fn fresh(&self) -> bool { self.trees@.len() == 0 && self.evaluation_history is None && self.best_iteration is None && self.prediction_iteration is None }
    #[verifier::external_body]
    fn sample_index(&self, rng: &mut StdRng, index: &[usize], grad: &mut [F32], hess: &mut [F32]) -> (r: (Vec<usize>, Vec<usize>))
        ensures ({
            let s = sampled(self.sample_method, self.subsample, self.top_rate, self.other_rate, old(rng).st(), index@, old(grad)@, old(hess)@);
            r.0@ == s.idx && final(grad)@ == s.g && final(hess)@ == s.h && final(rng).st() == s.st
        }),
    { unimplemented!() }
/*@fn gradientbooster.rs :: GradientBooster :: get_metric_fn
ret r
spec:
    ensures r.0 == metric_fn_of(metric_in_use(*self)), r.1 == (metric_in_use(*self) is AUC),
*/
/*@fn gradientbooster.rs :: GradientBooster :: reset
spec:
    ensures final(self).fresh(), same_settings(*final(self), *old(self)), final(self).base_score == old(self).base_score,
*/
/*@fn gradientbooster.rs :: GradientBooster :: update_best_iteration
spec:
    requires i < usize::MAX,
    ensures final(self).best_iteration == Some(i), final(self).prediction_iteration == Some((i + 1) as usize), final(self).trees == old(self).trees, final(self).evaluation_history == old(self).evaluation_history, final(self).base_score == old(self).base_score, same_settings(*final(self), *old(self)),
*/
/*@fn gradientbooster.rs :: GradientBooster :: update_predictions_inplace
spec:
    requires data.rows == old(yhat)@.len(),
    ensures final(yhat)@ == plus(old(yhat)@, preds(*tree, *data, self.missing)),
start:
    let ghost prev = yhat@;
    let ghost pp = preds(*tree, *data, self.missing);
loop 1 hoist z iter jt:
    invariant
        jt.seq() == z_s, jt.seq().len() == if prev.len() <= pp.len() { prev.len() } else { pp.len() },
        forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]).0 == prev[i] && jt.seq()[i].1 == pp[i],
        forall|i: int| 0 <= i < jt.index@ ==> *final((#[trigger] jt.seq()[i]).0) == prev[i].add_(pp[i]),
tail:
    proof {
        assert forall|i: int| 0 <= i < prev.len() implies yhat@[i] == plus(prev, pp)[i] by { if i < pp.len() { let x = z_s[i]; assert(*final(x.0) == prev[i].add_(pp[i])); } }
        assert(yhat@ =~= plus(prev, pp));
    }
*/
/*@fn gradientbooster.rs :: GradientBooster :: fit_trees
lit f64
subst T=AnySplitter
generics <>
itermut
calls calc_init_callables()=vx_init calc_grad_hess=vx_gh metric_fn=vx_metric
std choose_multiple floor sort
fcast ((cvt64(col_index.len()))*self.colsample_bytree).vx_floor()
ret r
spec:
    requires
        old(self).trees@.len() == 0 ==> old(self).fresh(),
        data.wf(), data.rows == y@.len(),
        evaluation_data is Some ==> evaluation_data->Some_0@.len() > 0 && old(self).iterations + evaluation_data->Some_0@.len() <= usize::MAX,
        evaluation_data is Some ==> forall|k: int| 0 <= k < evaluation_data->Some_0@.len() ==> (#[trigger] evaluation_data->Some_0@[k]).0.rows == evaluation_data->Some_0@[k].1@.len(),
    ensures
        r is Ok <==> binned(*data, sample_weight@, old(self).nbins, old(self).missing) is Ok,
        r is Ok ==> ({ let c = Cfg { b: *old(self), y: y@, w: sample_weight@, d: *data, s: *splitter, e: evaluation_data }; outcome(*final(self), c, run(c, old(self).iterations as nat)) }),
start:
    let ghost c = Cfg { b: *self, y: y@, w: sample_weight@, d: *data, s: *splitter, e: evaluation_data };
    proof { broadcast use ideal_arith; }
after "let mut stop_early = false;":
    proof {
        assert(yhat@ =~= filled(base_of(c), y@.len()));
        assert(self.trees@ =~= Seq::<Tree>::empty());
        assert(data.rows * data.cols == binned_data.binned_data@.len());
        if c.e is Some {
            assert forall|k: int| 0 <= k < n_sets(c) implies set_is(#[trigger] evaluation_sets->Some_0@[k], c.e->Some_0@[k], start(c).ev[k]) by {
                assert(set_start(evaluation_sets->Some_0@[k], c.e->Some_0@[k], self.base_score));
                assert(evaluation_sets->Some_0@[k].3@ =~= start(c).ev[k]);
            }
        }
    }
loop 1 iter it:
    invariant_except_break
        !stop_early, at_step(*self, c, run(c, it.index@ as nat), rng, yhat@, grad@, hess@, best_metric), sets_are(evaluation_sets, c, run(c, it.index@ as nat).ev), self.trees@.len() == it.index@, !run(c, it.index@ as nat).stop,
    invariant
        it.seq().len() == c.b.iterations, c == (Cfg { b: c.b, y: y@, w: sample_weight@, d: *data, s: *splitter, e: evaluation_data }),
        binned(*data, sample_weight@, c.b.nbins, c.b.missing) == Ok::<BinnedData<F64>, ForustError>(binned_data),
        bdata.wf(), bdata.data@ == binned_data.binned_data@, bdata.rows == data.rows, bdata.cols == data.cols, calc_grad_hess == obj_fn(c.b.objective_type), col_index@ == all_cols(data.cols),
        data.wf(), data.rows == y@.len(),
        evaluation_data is Some ==> evaluation_data->Some_0@.len() > 0 && c.b.iterations + evaluation_data->Some_0@.len() <= usize::MAX,
        evaluation_data is Some ==> forall|k: int| 0 <= k < evaluation_data->Some_0@.len() ==> (#[trigger] evaluation_data->Some_0@[k]).0.rows == evaluation_data->Some_0@[k].1@.len(),
    ensures
        outcome(*self, c, run(c, c.b.iterations as nat)),
loop 1 start:
    proof { broadcast use ideal_arith; }
    let ghost s = run(c, i as nat);
    let ghost s2 = step(c, s);
    proof { assert(run(c, (i + 1) as nat) == s2); lemma_lens(c, i as nat); }
    let ghost pre = *self;
before "if let Some(eval_sets)":
    proof {
        assert(fit_col_index@ == cols_of(c, s).0);
        assert(tree == next_tree(c, s));
        assert(yhat@ == s2.yhat);
        assert(0 * (n_sets(c) as int) == 0) by (nonlinear_arith);
    }
loop 2 iter jt:
    invariant
        jt.seq().len() == n_sets(c), jt.seq().len() == eval_sets@.len(), n_eval_sets == n_sets(c), n_sets(c) > 0, c.e is Some, i < usize::MAX, i == s.trees.len(),
        c == (Cfg { b: c.b, y: y@, w: sample_weight@, d: *data, s: *splitter, e: evaluation_data }),
        tree == next_tree(c, s),
        forall|k: int| 0 <= k < n_sets(c) ==> (#[trigger] c.e->Some_0@[k]).0.rows == c.e->Some_0@[k].1@.len(),
        forall|k: int| 0 <= k < n_sets(c) ==> (#[trigger] s.ev[k]).len() == c.e->Some_0@[k].1@.len(),
        forall|k: int| 0 <= k < n_sets(c) ==> set_is(#[trigger] eval_sets@[k], c.e->Some_0@[k], if k < jt.index@ { ev_next(c, s, k) } else { s.ev[k] }),
        metrics@.len() == jt.index@, forall|k: int| 0 <= k < jt.index@ ==> #[trigger] metrics@[k] == ms_at(c, s, k),
        same_settings(*self, c.b), self.base_score == base_of(c), self.trees == pre.trees, self.evaluation_history == hpre,
        best_is(*self, best_metric, if jt.index@ < n_sets(c) { s.best } else { best_next(c, s) }),
        s.best is Some ==> s.best->Some_0.0 < i,
        stop_early == (jt.index@ == n_sets(c) && stop_next(c, s)),
closure 3:
    |i: &&usize| -> (o: usize) ensures o == **i
before "v.vx_sort()":
    proof {
        let p = picks(draw(c, s).st, data.cols as nat, amount);
        assert(amount == col_amount(data.cols, c.b.colsample_bytree));
        assert(v@.len() == p.len());
        assert forall|k: int| 0 <= k < p.len() implies v@[k] == p[k] as usize by {}
        assert(v@ =~= Seq::new(p.len(), |k: int| p[k] as usize));
    }
before "let mut metrics: Vec<F64>":
    let ghost hpre = self.evaluation_history;
before "self.trees.push(tree)":
    proof {
        assert(best_is(*self, best_metric, best_next(c, s)));
        assert(stop_early == stop_next(c, s));
        if c.e is Some {
            let h = self.evaluation_history->Some_0;
            assert(h.data@ =~= s.hist + ms_of(c, s));
        } else { assert(s.hist + ms_of(c, s) =~= s.hist); }
        assert(sets_are(evaluation_sets, c, s2.ev));
    }
after "self.trees.push(tree);":
    proof { assert(self.trees@ == s2.trees); assert(outcome(*self, c, s2)); if stop_early { lemma_stopped(c, (i + 1) as nat, c.b.iterations as nat); } }
before "history.append_row":
    proof {
        let n = n_sets(c) as int;
        assert(n % n == 0 && n / n == 1) by (nonlinear_arith) requires n > 0;
        assert(metrics@ =~= ms_of(c, s));
    }
closure 1:
    |evals: &Vec<EvaluationData<'_>>| -> (o: Vec<TrainingEvaluationData<'_>>) ensures o@.len() == evals@.len(), forall|k: int| 0 <= k < evals@.len() ==> set_start(#[trigger] o@[k], evals@[k], self.base_score)
closure 2:
    |p__: &EvaluationData<'_>| -> (o: TrainingEvaluationData<'_>) ensures set_start(o, *p__, self.base_score)
*/
}
