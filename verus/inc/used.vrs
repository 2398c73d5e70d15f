// the trees in use
impl GradientBooster {
    pub open spec fn n_used(&self) -> int { match self.prediction_iteration { Some(k) => k as int, None => self.trees@.len() as int } }
    pub open spec fn used(&self) -> Seq<Tree> { self.trees@.subrange(0, self.n_used()) }
/*@fn gradientbooster.rs :: GradientBooster :: get_prediction_trees
ret r
spec:
    requires self.n_used() <= self.trees@.len(),
    ensures r@ == self.used(),
*/
}
