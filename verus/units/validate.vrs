/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/kept.vrs*/
/*@include ../inc/text.vrs*/
/*@include ../inc/matrix.vrs*/
/*@include ../inc/rowmajor.vrs*/
/*@include ../inc/tree.vrs*/
/*@include ../inc/booster_types.vrs*/
/*@include ../inc/validate.vrs*/
pub type EvaluationData<'a> = (Matrix<'a, F64>, &'a [F64], &'a [F64]);
/*@struct splitter.rs :: MissingBranchSplitter */
/*@struct splitter.rs :: MissingImputerSplitter */
/// the splitter of a booster: the booster's own parameters
pub trait Splitter { spec fn of(&self, b: GradientBooster) -> bool; }
pub open spec fn limits_of(b: GradientBooster) -> Map<usize, Constraint> { if b.monotone_constraints is Some { b.monotone_constraints->Some_0@ } else { Map::empty() } }
impl Splitter for MissingBranchSplitter {
    open spec fn of(&self, b: GradientBooster) -> bool {
        &&& b.create_missing_branch
        &&& self.l1 == b.l1 && self.l2 == b.l2 && self.max_delta_step == b.max_delta_step && self.gamma == b.gamma
        &&& self.min_leaf_weight == b.min_leaf_weight && self.learning_rate == b.learning_rate && self.allow_missing_splits == b.allow_missing_splits
        &&& self.constraints_map@ == limits_of(b) && self.terminate_missing_features@ == b.terminate_missing_features@
        &&& self.missing_node_treatment == b.missing_node_treatment && self.force_children_to_bound_parent == b.force_children_to_bound_parent
    }
}
impl Splitter for MissingImputerSplitter {
    open spec fn of(&self, b: GradientBooster) -> bool {
        &&& !b.create_missing_branch
        &&& self.l1 == b.l1 && self.l2 == b.l2 && self.max_delta_step == b.max_delta_step && self.gamma == b.gamma
        &&& self.min_leaf_weight == b.min_leaf_weight && self.learning_rate == b.learning_rate && self.allow_missing_splits == b.allow_missing_splits
        &&& self.constraints_map@ == limits_of(b)
    }
}
pub uninterp spec fn trained(a: GradientBooster, y: Seq<F64>, w: Seq<F64>, d: Matrix<F64>, e: Option<Vec<EvaluationData>>, b: GradientBooster, r: Result<(), ForustError>) -> bool;
pub open spec fn set_ok(e: EvaluationData) -> bool { all_there(e.1@) && all_there(e.2@) && none_below(e.2@) }
pub open spec fn inputs_ok(y: Seq<F64>, w: Seq<F64>, e: Option<Vec<EvaluationData>>) -> bool {
    all_there(y) && all_there(w) && none_below(w) && (e is Some ==> forall|k: int| 0 <= k < e->Some_0@.len() ==> set_ok(#[trigger] e->Some_0@[k]))
}
pub open spec fn params_valid(learning_rate: F32, l1: F32, l2: F32, gamma: F32, max_delta_step: F32, min_leaf_weight: F32, subsample: F32, top_rate: F64, other_rate: F64, colsample_bytree: F64) -> bool {
    &&& nonneg32(learning_rate) && nonneg32(l1) && nonneg32(l2) && nonneg32(gamma)
    &&& nonneg32(max_delta_step) && nonneg32(min_leaf_weight) && nonneg32(subsample)
    &&& nonneg64(top_rate) && nonneg64(other_rate) && nonneg64(colsample_bytree)
}
impl GradientBooster {
    /// nothing trained yet
    pub open spec fn fresh(&self) -> bool { self.trees@.len() == 0 && self.evaluation_history is None && self.best_iteration is None && self.prediction_iteration is None }
    pub open spec fn params_ok(&self) -> bool {
        params_valid(self.learning_rate, self.l1, self.l2, self.gamma, self.max_delta_step, self.min_leaf_weight, self.subsample, self.top_rate, self.other_rate, self.colsample_bytree)
    }
/*@fn gradientbooster.rs :: GradientBooster :: validate_parameters
ret r
spec:
    ensures r is Ok <==> self.params_ok(),
*/
/*@fn gradientbooster.rs :: GradientBooster :: new
ret r
spec:
    ensures
        r is Ok ==> r->Ok_0.params_ok() && r->Ok_0.fresh(),
        r is Ok <==> params_valid(learning_rate, l1, l2, gamma, max_delta_step, min_leaf_weight, subsample, top_rate, other_rate, colsample_bytree),
*/
    /// trains the trees: verified in unit `booster`
    #[verifier::external_body]
    fn fit_trees<T: Splitter>(&mut self, y: &[F64], sample_weight: &[F64], data: &Matrix<F64>, splitter: &T, evaluation_data: Option<Vec<EvaluationData>>) -> (r: Result<(), ForustError>)
        requires splitter.of(*old(self)),
        ensures trained(*old(self), y@, sample_weight@, *data, evaluation_data, *final(self), r),
    { unimplemented!() }
/*@fn gradientbooster.rs :: GradientBooster :: fit
std to_owned=vx_same to_string clone=vx_same
ret r
spec:
    ensures
        !inputs_ok(y@, sample_weight@, evaluation_data) ==> r is Err && *final(self) == *old(self),
        inputs_ok(y@, sample_weight@, evaluation_data) ==> exists|q: Result<(), ForustError>| (q is Ok <==> r is Ok) && #[trigger] trained(*old(self), y@, sample_weight@, *data, evaluation_data, *final(self), q),
start:
    proof { if evaluation_data is Some { assert(evaluation_data->Some_0.len() == evaluation_data->Some_0@.len()); } }
loop 1 iter it:
    invariant
        evaluation_data is Some, *eval_data == evaluation_data->Some_0, *self == *old(self),
        it.seq().len() == eval_data@.len(),
        forall|k: int| 0 <= k < eval_data@.len() ==> *(#[trigger] it.seq()[k]).1 == eval_data@[k],
        forall|k: int| 0 <= k < it.index@ ==> set_ok(#[trigger] eval_data@[k]),
loop 1 start:
    proof { assert(eval_data@[it.index@] == *it.seq()[it.index@].1); }
*/
}
} fn main() {}
