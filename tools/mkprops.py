#!/usr/bin/env python3
"""writes properties.jsonl (kept as code so that titles, statements and anchors are edited in one place)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

prop("P01", "Predictions are the base score plus the routed leaf of every tree in use",
 "For every model and every row, the prediction equals the base score plus, over the trees in use (all of them, or those up to the best iteration), the weight of the one leaf reached by going to the missing child on a missing value, left if the value is smaller than the split value and right otherwise. Leaf indices name exactly those leaves, rows do not influence each other, and parallel and sequential prediction agree.",
 ["inputs", "configurations"], "all well-formed tree ensembles, all data matrices without stray NaN, every missing value, with and without a best iteration, parallel or not",
 "tests compare a handful of trained models on two data sets; routing has to be right for every value (ties with the split value, infinities, signed zero, missing) in every tree shape",
 ["gradientbooster.rs", "tree.rs", "node.rs", "utils.rs", "data.rs"],
 [("predict", "gradientbooster.rs GradientBooster::predict"), ("routing", "node.rs Node::get_child_idx, tree.rs Tree::predict_leaf"), ("missing test", "utils.rs is_missing"), ("cell access", "data.rs Matrix::get")],
 observe=["GradientBooster::predict", "GradientBooster::predict_leaf_indices"])
prop("P02", "Grown trees are well formed",
 "Every tree produced by training is a finite rooted tree: nodes are numbered by position, every split node has distinct left and right children placed after it and one level deeper, its missing child is one of those two or a third child of its own, every node except the root is the child of exactly one split node, and leaves have no children. Every split uses a feature that was offered to the tree and a split value that is one of that feature's cuts.",
 ["inputs", "configurations"], "all training data, gradients, hessians, parameters, both missing-value strategies and both growth policies",
 "tests assert the node count or one printed tree; the structure must hold for every growth history",
 ["tree.rs", "splitter.rs", "node.rs", "grower.rs"],
 [("growth loop", "tree.rs Tree::fit"), ("children", "splitter.rs handle_split_info (both splitters)"), ("parent update", "node.rs make_parent_node, update_children, as_node")],
 observe=["GradientBooster::trees"])
prop("P03", "Depth, leaf and iteration limits hold and growth follows the policy",
 "No node of a trained tree is deeper than the maximum depth, no tree has more leaves than the maximum number of leaves (at least one), and no more trees are trained than iterations were asked for (exactly that many without early stopping). Depth-wise growth expands every splittable node of a level before any deeper one; loss-guided growth always expands the pending node with the highest score.",
 ["inputs", "configurations", "histories"], "all data and parameters, both growth policies, both missing-value strategies",
 "limits are checked on one data set and two settings; the leaf count depends on the whole expansion history (binary and ternary splits mixed with failed splits)",
 ["tree.rs", "grower.rs", "splitter.rs", "node.rs", "gradientbooster.rs"],
 [("leaf accounting and depth test", "tree.rs Tree::fit"), ("leaves added per split", "splitter.rs new_leaves_added"), ("queue order", "grower.rs Grower impls, node.rs Ord for SplittableNode")])
prop("P04", "Binning preserves order and separates missing values",
 "For every column, the cuts are strictly increasing, every cut but the last is a value of the data, the smallest value is a cut, the last is larger than all data, and there are never more bins than fit the bin type. A non-missing value falls in the bin whose number is the count of cuts not larger than it, so that a binned comparison with a cut's bin always gives the same answer as comparing the raw values; bin zero holds exactly the missing values.",
 ["inputs", "configurations"], "all finite columns with any mixture of missing values, ties and weights with at least one positive, every number of bins and every missing value",
 "tests bin two fixed columns with two bin counts; order preservation has to hold for ties, duplicates, extreme values, many uniques and few bins",
 ["binning.rs", "utils.rs"],
 [("cut points", "binning.rs percentiles_or_value, bin_matrix_from_cuts, bin_matrix"), ("binary search", "utils.rs map_bin")])
prop("P05", "Partitioning rows at a split is an exact stable-membership rearrangement",
 "Splitting a node rearranges its row indices without losing, duplicating or inventing any, and returns the exact boundary: all rows before it belong to the left side and all rows after it to the right. Missing rows go to the side that was asked for, or, when they get a child of their own, form exactly the first block.",
 ["inputs"], "all index slices (including empty ones and single rows), all bin columns, all split bins, both missing directions",
 "tests pivot random vectors but never slices of length zero or one, or with no row on one side, and only check the side of each row",
 ["utils.rs"], [("two-way partition", "utils.rs pivot_on_split"), ("three-way partition", "utils.rs pivot_on_split_exclude_missing"), ("ordering", "utils.rs missing_compare")])
prop("P06", "Training and prediction send every row to the same leaf",
 "For every trained tree and every training row, the leaf that prediction reaches is the leaf whose statistics the row contributed to during training. Equivalently, the cover stored at each node is the sum of the hessians of exactly the sampled training rows that prediction routes through that node.",
 ["inputs", "configurations"], "all data (ties, missing values, signed zero), weights, bin counts, sampling, both missing-value strategies",
 "training works on bins and prediction on raw values; tests never compare the two, and they only diverge on boundary values",
 ["splitter.rs", "tree.rs", "utils.rs", "binning.rs", "node.rs", "histogram.rs"],
 [("binned split", "splitter.rs best_feature_split (split_bin / split_value)"), ("partition", "utils.rs pivot_on_split, pivot_on_split_exclude_missing"), ("routing", "node.rs get_child_idx"), ("binning", "utils.rs map_bin")])
prop("P07", "Monotone constraints hold for every prediction",
 "When a feature is constrained to be increasing (decreasing), raising that feature from one non-missing value to a larger one while everything else stays the same never lowers (raises) the prediction of the model. This holds whatever the other features, constraints, regularisation and missing-value options are.",
 ["inputs", "configurations"], "all training data, constraint maps, parameters and pairs of rows that differ in one constrained feature by non-missing values (missing leaves averaged over the tree afterwards excepted)",
 "tests check one constrained feature on one data set; violations need an unconstrained split below a constrained one, bounds from several ancestors or missing rows joining one side",
 ["splitter.rs", "utils.rs", "node.rs"],
 [("bounded weights", "utils.rs constrained_weight"), ("violating splits culled", "utils.rs cull_gain"), ("bounds handed to children", "splitter.rs best_feature_split"), ("bounds of the missing branch", "splitter.rs evaluate_split")])
prop("P08", "Leaf weights are the regularised optimum, bounded by the maximum step",
 "A node's weight is minus its gradient sum, shrunk toward zero by the L1 penalty, divided by its hessian sum plus the L2 penalty, then limited in magnitude to the maximum delta step (zero meaning no limit) and to any bounds inherited from constraints. The trained model stores that weight times the learning rate.",
 ["inputs", "configurations"], "all gradient and hessian sums and all non-negative parameters",
 "tests check a few weights with default parameters; L1, maximum step and inherited bounds interact",
 ["utils.rs", "splitter.rs", "tree.rs", "node.rs"],
 [("weight", "utils.rs weight, l1_regularization, constrained_weight"), ("root", "tree.rs Tree::fit"), ("learning rate", "node.rs as_node")])
prop("P09", "Accepted splits satisfy all limits and are the best candidate",
 "Every split in a trained tree improves the regularised objective by more than gamma, leaves at least the minimum hessian on each side (rows with missing values counted on the side they join), and respects the constraint on its feature. No other cut of any offered feature has a larger gain, and a node is only left unsplit within the limits if no candidate qualifies.",
 ["inputs", "configurations"], "all histograms of all nodes, all parameters, all offered feature sets",
 "tests compare a few trees with recorded output; optimality and the limits must hold for every node and candidate",
 ["splitter.rs", "utils.rs", "node.rs"],
 [("candidate scan", "splitter.rs best_feature_split, best_split"), ("candidate evaluation", "splitter.rs evaluate_split"), ("gain", "utils.rs gain, gain_given_weight, cull_gain; node.rs get_split_gain")])
prop("P10", "Missing values are handled as configured",
 "Without a separate missing branch, rows missing the split feature join the side that improves the objective more (right if there are none); without permission for missing-only splits both sides must hold non-missing rows. With a separate branch, they go to a child of their own, which is split further only if allowed, non-empty and not a feature on which missing terminates, and whose weight is: the parent's weight (assign-to-parent), the cover-weighted average of its siblings (average-node) or of the leaves below its parent (average-leaf), or its own optimum falling back to the parent's weight when it is empty.",
 ["inputs", "configurations"], "all data with missing values and all combinations of the missing-value options",
 "tests cover few option combinations on one data set; which rows are missing, where and how deep is unbounded",
 ["splitter.rs", "tree.rs"],
 [("branch evaluation", "splitter.rs MissingBranchSplitter::evaluate_split / handle_split_info"), ("imputing evaluation", "splitter.rs MissingImputerSplitter::evaluate_split / handle_split_info"), ("leaf averages", "splitter.rs update_average_missing_nodes")])
prop("P11", "Histograms hold exact per-bin sums, however they were obtained",
 "For every node and feature the histogram holds, per bin, the sums of the gradients and hessians of exactly the node's rows in that bin, with one bin per cut and the missing bin first. The same is true, up to rounding, of a histogram obtained by subtracting siblings from the parent, and the totals over the bins equal the node's totals.",
 ["inputs", "configurations"], "all binned data, index sets, column subsets, gradients and hessians, sorted or unsorted construction, parallel or sequential",
 "tests compare two constructions on one data set; bin ownership and subtraction have to be right for every index set",
 ["histogram.rs", "utils.rs"],
 [("construction", "histogram.rs create_feature_histogram, HistogramMatrix::new"), ("subtraction", "histogram.rs Bin::from_parent_child, from_parent_two_children"), ("totals", "utils.rs fast_f64_sum")])
prop("P12", "Additive contributions sum to the prediction",
 "For the weight, average and Shapley methods the contributions of a row plus its bias term equal the prediction of that row, and for the probability-change method they equal the predicted probability. A feature that no tree in use splits on contributes zero, and parallel and sequential computation agree.",
 ["inputs", "configurations"], "all ensembles, all rows, with and without a best iteration, trees with two and with three children",
 "tests sum contributions for one model and data set; additivity has to telescope along every path of every tree",
 ["tree.rs", "gradientbooster.rs", "shapley.rs", "utils.rs"],
 [("path telescoping", "tree.rs predict_contributions_row_weight / _average / _probability_change"), ("bias and accumulation", "gradientbooster.rs predict_contributions_*"), ("Shapley", "shapley.rs predict_contributions_row_shapley")])
prop("P13", "Difference contributions follow their definitions",
 "For the branch-, midpoint- and mode-difference methods, each split on a row's path adds to its feature the weight of the child taken minus, respectively, the weight of the other non-missing child, the cover-weighted mean of both, or the weight of the non-missing child with the larger cover (zero on a tie). A split at which the row goes down a separate missing branch adds nothing, and the bias is the base score.",
 ["inputs", "configurations"], "all ensembles and rows",
 "tests check one model; the definition must hold on every path including missing rows routed to a shared child",
 ["tree.rs", "gradientbooster.rs"],
 [("row methods", "tree.rs predict_contributions_row_branch_difference / _midpoint_difference / _mode_difference")])
prop("P14", "Partial dependence is the cover-weighted average of routed leaves",
 "The partial dependence of a value is the base score plus, per tree in use, the average of the leaf weights in which every split on that feature follows the value and every other split averages its children by cover. It does not depend on the parallel setting.",
 ["inputs", "configurations"], "all ensembles, features and values including missing",
 "tests evaluate one feature of one model",
 ["partial_dependence.rs", "tree.rs", "gradientbooster.rs"],
 [("recursion", "partial_dependence.rs tree_partial_dependence, get_node_cover"), ("sum over trees", "gradientbooster.rs value_partial_dependence")])
prop("P15", "Feature importance aggregates every split exactly once",
 "Importance by weight counts, per feature, the splits over all trees; total gain and total cover sum the stored gain and cover of those splits, and gain and cover divide the sums by the count. Features never split on are absent, and normalised values are the raw ones divided by their sum.",
 ["inputs", "configurations"], "all ensembles with two- and three-way splits",
 "tests compare one model with recorded numbers",
 ["tree.rs", "gradientbooster.rs"],
 [("traversal", "tree.rs calc_feature_node_stats"), ("aggregation", "gradientbooster.rs calculate_feature_importance")])
prop("P16", "Early stopping keeps the best iteration and the full history",
 "With evaluation data, the history holds the metric of every evaluation set after every trained tree. With early stopping, the best iteration is the first at which the last evaluation set's metric is best (larger or smaller as the metric demands, NaN never an improvement), training ends as soon as the configured number of iterations has passed without improvement, and prediction uses exactly the trees up to the best iteration; without it neither is set.",
 ["inputs", "histories", "configurations"], "all metric histories including ties and NaN, all stopping rounds, any number of evaluation sets",
 "tests run two configurations; the stopping state machine depends on the whole history of metric values",
 ["gradientbooster.rs", "metric.rs", "data.rs"],
 [("stopping state machine", "gradientbooster.rs fit_trees, update_best_iteration"), ("comparison", "metric.rs is_comparison_better"), ("history", "data.rs RowMajorMatrix::append_row")])
prop("P17", "Row and column sampling partition their input and reweight only what they should",
 "Random row sampling puts every row in exactly one of the chosen and excluded sets, in order, and leaves gradients and hessians unchanged; no sampling chooses every row. Gradient-based sampling keeps the rows with the largest absolute gradients and a random rest, scales only that random rest by the documented factor, and never picks a row twice; column sampling trains each tree on the requested fraction of distinct columns.",
 ["inputs", "configurations"], "all index sets, gradients, rates and seeds",
 "tests check sizes for one seed",
 ["sampler.rs", "gradientbooster.rs"],
 [("random", "sampler.rs RandomSampler::sample"), ("goss", "sampler.rs GossSampler::sample"), ("columns", "gradientbooster.rs fit_trees")])
prop("P18", "Gradients, hessians and initial scores are those of the objective",
 "For every row the gradient and hessian handed to training are the sample weight times the first and second derivative of the chosen loss at the current prediction, and the automatic base score is the constant that minimises the weighted loss. Rows do not influence each other.",
 ["inputs", "configurations"], "all labels, predictions and weights, both objectives",
 "tests check two or three rows and the sign of sums",
 ["objective.rs"],
 [("log loss", "objective.rs LogLoss"), ("squared loss", "objective.rs SquaredLoss"), ("dispatch", "objective.rs gradient_hessian_callables, calc_init_callables")])
prop("P19", "Evaluation metrics equal their weighted definitions",
 "Log loss, root mean squared error and root mean squared log error equal their weighted definitions on the raw predictions, and the area under the curve equals the weighted probability that a positive row outranks a negative one, ties counting half. The metric is invariant under permuting rows, and only the area under the curve is maximised.",
 ["inputs"], "all label, prediction and weight vectors (binary labels for AUC)",
 "tests check short vectors; ties and weights in AUC depend on sorting all rows",
 ["metric.rs", "objective.rs"],
 [("AUC", "metric.rs roc_auc_score, trapezoid_area"), ("losses", "metric.rs log_loss, root_mean_squared_*"), ("dispatch", "metric.rs metric_callables")])
prop("P20", "Invalid parameters and data are rejected before anything changes",
 "A booster cannot be created with a NaN or negative value for any of its non-negative real parameters, and fitting with a NaN label or a NaN or negative sample weight, in the training or any evaluation set, returns an error. A rejected fit leaves the model as it was, and valid input is never rejected by these checks.",
 ["inputs", "configurations"], "all parameter values and all positions of a bad value in any vector",
 "tests try one or two bad values",
 ["gradientbooster.rs", "utils.rs"],
 [("parameters", "gradientbooster.rs validate_parameters, utils.rs validate_float_parameter"), ("vectors", "utils.rs validate_not_nan_vec, validate_positive_vec, validate_positive_not_nan_vec")])
prop("P21", "Training is deterministic and refitting starts afresh",
 "Fitting twice with the same data, parameters and seed gives the same model, fitting a booster that was already fitted gives the model a fresh booster would give, and the parallel setting does not change the model.",
 ["histories", "configurations", "schedules"], "all fit histories of a booster, all data and parameters, sequential and parallel",
 "tests fit once; leftover state only shows on the second fit with different data or early stopping",
 ["gradientbooster.rs", "tree.rs", "histogram.rs"],
 [("reset", "gradientbooster.rs reset, fit_trees"), ("seeding", "gradientbooster.rs fit_trees")])
prop("P22", "Matrix containers return the cell that was stored",
 "The column-major matrix returns, for row i and column j, the element at position i + j * rows, and its rows, columns and column slices list exactly those cells in order; the row-major matrix does so for i * columns + j and keeps all cells when rows are appended. The jagged matrix returns, for every column, exactly the vector it was built from.",
 ["inputs"], "all shapes (including empty columns) and contents",
 "tests use one shape each",
 ["data.rs"],
 [("column major", "data.rs Matrix"), ("row major", "data.rs RowMajorMatrix"), ("jagged", "data.rs JaggedMatrix")])
prop("P23", "Weighted percentiles are the smallest values reaching the requested mass",
 "For every requested percentile the result is the smallest value whose cumulative share of the total weight, in sorted order, reaches that percentile, with one result per request in the order asked.",
 ["inputs"], "all value vectors, positive weights and sorted percentiles between zero and one",
 "tests check uniform weights on short vectors",
 ["utils.rs"], [("percentiles", "utils.rs percentiles")])
prop("P24", "Children bracket their parent when asked to",
 "When children are forced to bound their parent, the weight of every split node lies between the weights of its left and right children (averaged missing leaves excepted). The option never makes training fail, and child weights that already bracket the parent are left unchanged.",
 ["inputs", "configurations"], "all data, constraints and regularisation with a separate missing branch",
 "tests use one data set",
 ["utils.rs", "splitter.rs"],
 [("bounding", "utils.rs bound_to_parent, between"), ("use", "splitter.rs MissingBranchSplitter::evaluate_split")])
prop("P25", "Saving and loading a model preserves it",
 "A model written to JSON and read back gives bitwise the same predictions, parameters and metadata for every model that contains only finite numbers.",
 ["inputs"], "all trained models",
 "tests round-trip two models",
 ["gradientbooster.rs"], [("serde derive", "gradientbooster.rs json_dump, from_json")])
prop("P26", "The Python package exposes the same behaviour",
 "Fitting and predicting through the Python package gives the same results as the Rust crate for the same data and parameters.",
 ["inputs"], "all arrays and parameters accepted by the Python interface",
 "needs the compiled extension module",
 ["../py-forust/src/lib.rs"], [("bindings", "py-forust/src/lib.rs")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
