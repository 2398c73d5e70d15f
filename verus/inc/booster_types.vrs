// ================================================================ gradientbooster.rs : the model
/*@enum constraints.rs :: Constraint */
pub type ConstraintMap = HashMap<usize, Constraint>;
/*@enum objective.rs :: ObjectiveType */
/*@enum sampler.rs :: SampleMethod */
/*@enum gradientbooster.rs :: GrowPolicy */
/*@enum gradientbooster.rs :: MissingNodeTreatment */
/*@enum metric.rs :: Metric */
/*@struct gradientbooster.rs :: GradientBooster */
