pub open spec fn spl_extra(s: Spl, p: F32, l: F32, r: F32) -> bool { true }
pub proof fn lemma_done(s: Spl, n0: SplittableNode, n1: SplittableNode, index0: Seq<usize>, index1: Seq<usize>, kids: Seq<SplittableNode>, nn: int, b: u16, v: Env)
    requires split_done(s, n0, n1, index0, index1, kids, nn, b, v), seg_ok(index0, n0),
    ensures done_common(s, n0, n1, index0, index1, kids, nn, b, v),
{
    let (a, c) = (seg(index1, kids[0]), seg(index1, kids[1]));
    let feat = v.data.col(n1.split_feature as int);
    lemma_seg_cut(index1, n0.start_idx as int, kids[0].stop_idx as int, n0.stop_idx as int);
    assert forall|j: int| 0 <= j < n_new() implies #[trigger] kid_rows(kids[j], n0, n1, index0, index1, b, v) by {
        assert forall|r: usize| r < v.data.rows implies #[trigger] count(seg(index1, kids[j]), r) == if side_of(feat[r as int], b, n1) == kids[j].num { count(seg(index0, n0), r) } else { 0 } by {
            lemma_count_cat(a, c, r);
            if side_of(feat[r as int], b, n1) != kids[0].num { lemma_count_side(a, feat, b, n1, kids[0].num, r); }
            if side_of(feat[r as int], b, n1) != kids[1].num { lemma_count_side(c, feat, b, n1, kids[1].num, r); }
            assert(j == 0 || j == 1);
        }
    }
}
impl MissingImputerSplitter {
/*@fn splitter.rs :: Splitter for MissingImputerSplitter :: get_l1
ret r
spec:
    ensures r == self.l1,
*/
/*@fn splitter.rs :: Splitter for MissingImputerSplitter :: get_l2
ret r
spec:
    ensures r == self.l2,
*/
/*@fn splitter.rs :: Splitter for MissingImputerSplitter :: get_max_delta_step
ret r
spec:
    ensures r == self.max_delta_step,
*/
/*@fn splitter.rs :: Splitter for MissingImputerSplitter :: get_learning_rate
ret r
spec:
    ensures r == self.learning_rate,
*/
/*@fn splitter.rs :: trait Splitter :: new_leaves_added
ret r
spec:
    ensures r == n_new() - 1,
*/
/*@fn splitter.rs :: trait Splitter :: clean_up_splits
spec:
    requires clean_pre(*self, old(_tree).nodes@),
    ensures cleaned(*self, old(_tree).nodes@, final(_tree).nodes@),
*/
}
pub open spec fn spl_shape(l: int, r: int, m: int) -> bool { m == l || m == r }
pub open spec fn clean_pre(s: Spl, a: Seq<Node>) -> bool { a.len() > 0 && avg_wf(a) }
pub open spec fn cleaned(s: Spl, a: Seq<Node>, b: Seq<Node>) -> bool { same_but_weights(a, b) && a == b }
/// the stored weights: times the learning rate
pub open spec fn stored(nodes: Seq<Node>, g: Gh, s: Spl) -> bool { weights_inv(nodes, g, s.learning_rate) }
pub proof fn lemma_clean_pre(a: Seq<Node>, g: Gh, v: Env, s: Spl, md: int)
    requires tree_inv(a, g, v, s, md), weights_inv(a, g, s.learning_rate), s_ok(s), env_ok(v), s.learning_rate.fin(),
    ensures clean_pre(s, a),
{ lemma_avg_wf(a, g, v, s, md); }
pub proof fn lemma_stored(a: Seq<Node>, b: Seq<Node>, g: Gh, v: Env, s: Spl, md: int)
    requires tree_inv(a, g, v, s, md), weights_inv(a, g, s.learning_rate), s_ok(s), env_ok(v), cleaned(s, a, b),
    ensures stored(b, g, s),
{}
