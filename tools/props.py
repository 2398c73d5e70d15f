"""per property: the units that prove it, the bounded stand-in, extra assumptions, and the MANIFEST notes"""
COMMON_ASSUMPTIONS = [
    "extraction: the verified text is cut from /repo/src on this run; the rewrites applied are listed in coverage.extraction_rewrites",
    "rayon parallel iterators are replaced by the sequential iterator of the same name (closures are pure; no data race is possible in safe Rust)",
    "floats are opaque values with the IEEE comparison semantics; operators are uninterpreted functions unless a unit says `ideal` (then machine rounding and overflow are treated as mathematical)",
    "generic code is verified for the instantiation named in the unit (T = f64 or f32)",
    "standard-library calls listed in coverage.trusted_base carry assumed contracts",
]
IDEAL = "ideal arithmetic: sums, products and quotients of floats are treated as mathematical in this unit"
GROW = ["weights", "containers", "pivots", "sums", "histogram", "split_imp", "split_brn", "grow_imp", "grow_brn", "growers", "fit_imp", "fit_brn"]
TREE = [IDEAL, "l2 > 0; the averaging treatments of missing values need min_leaf_weight > 0; finite gradients, non-negative finite hessians (P18), at most 65535 cuts per feature",
        "termination of the growth loop is not proved", "a vector of nodes holds at most usize::MAX - 16 elements (allocation limit)",
        "BinaryHeap pops a maximal element under Ord (assumed contract); VecDeque and Box::default carry assumed contracts"]
BOOST = ["in unit booster, derivatives, metrics, binning, row sampling, tree growth and tree prediction are deterministic functions of their arguments (their own contracts are proved in units objectives, metrics, binning, sampler, fit_*, predict); the random generator is a state machine",
         "the list of evaluation sets, when given, is not empty; iterations + evaluation sets fit in usize; a booster without trees holds no best iteration and no history",
         "logging macros are dropped from the verified text (R23)"]
# a failed obligation in one of these units is this property's violation; elsewhere it only leaves the property unproved
ALARM = {
    "P02": ["grow_imp", "grow_brn", "growers", "fit_imp", "fit_brn"],
    "P03": ["growers", "fit_imp", "fit_brn"],
    "P06": ["pivots", "grow_imp", "grow_brn", "fit_imp", "fit_brn", "binning"],
    "P07": ["weights", "split_imp", "split_brn", "grow_imp", "grow_brn", "fit_imp", "fit_brn"],
    "P08": ["weights", "split_imp", "split_brn", "fit_imp", "fit_brn"],
    "P09": ["weights", "split_imp", "split_brn", "grow_imp", "grow_brn"],
    "P10": ["split_imp", "split_brn", "grow_imp", "grow_brn", "fit_brn"],
    "P11": ["histogram", "grow_imp", "grow_brn"],
    "P24": ["weights", "split_brn", "grow_brn"],
    "P16": ["booster:" + f for f in ("fit_trees", "update_best_iteration", "is_comparison_better", "metric_callables", "maximize", "default_metric", "get_metric_fn", "update_predictions_inplace")] + ["containers:append_row", "predict:get_prediction_trees"],
    "P17": ["sampler"],
    "P21": ["booster:reset"],
}
PROPS = {
    "P02": dict(units=GROW, bounded="random training runs (both splitters, both policies, sampling, constraints): the structure of every tree", assume=TREE),
    "P03": dict(units=GROW + ["booster"], bounded="random training runs: depth, leaf and tree counts, level order and expansion order by score; the number of trees", assume=TREE + BOOST),
    "P06": dict(units=GROW + ["binning"], bounded="random training runs: every node's cover against the hessians of the sampled rows that prediction routes there", assume=TREE + ["training values are below f64::MAX"]),
    "P07": dict(units=GROW, bounded="random training runs with constraints: every pair of neighbouring values of the constrained feature in random contexts", assume=TREE + ["learning rate finite and not negative (P20)"]),
    "P01": dict(units=["predict"], bounded="random models and data: predictions, leaf indices, row independence, parallel equals sequential",
                assume=["models whose trees are well formed (P02) and data without stray NaN", "flat_map in the leaf-index accessor is outside the verifier: bounded"]),
    "P04": dict(units=["binning"], bounded="random columns (ties, infinities, duplicates, sentinel and NaN missing values): cuts and bins",
                assume=[IDEAL, "sample weights of non-missing rows are positive; training values are below f64::MAX", "Vec::dedup, sort_unstable_by, filter, unzip carry assumed contracts"]),
    "P05": dict(units=["pivots"], bounded="random index/feature vectors: both partitioning functions against an independent filter; trained trees through the splitter's own call",
                assume=["slice::swap exchanges two elements (assumed contract)", "the split bin is not the missing bin"]),
    "P18": dict(units=["objectives"], bounded="random rows against numerical derivatives and minimisation; the dispatch by objective type",
                assume=[IDEAL, "exp and ln are uninterpreted functions with exp > 0, exp(ln x) = x, exp(x) exp(-x) = 1", "unzip carries an assumed contract", "finite inputs; both classes present for the log loss base score"]),
    "P19": dict(units=["metrics"], bounded="random rows against direct definitions, permutations of rows; the dispatch by metric type",
                assume=[IDEAL, "exp, ln, ln_1p, sqrt are uninterpreted functions", "sort_unstable_by sorts (assumed contract)", "finite inputs, labels between 0 and 1 for the area under the curve"]),
    "P08": dict(units=GROW, bounded="random trees: every node's weight against the closed form on its rows",
                assume=TREE),
    "P12": dict(units=["contribs"], bounded="random models, rows and options: every additive method summed against the prediction, unused features zero, parallel equals sequential (includes the booster-level loops and the Shapley recursion)",
                assume=[IDEAL, "exp is an uninterpreted positive function", "models whose trees are well formed with consistent covers (P02, P06)"]),
    "P13": dict(units=["contribs"], bounded="random models and rows: each difference method against an independent path walk (includes the booster-level loops)",
                assume=[IDEAL, "models whose trees are well formed (P02)"]),
    "P14": dict(units=["pdep"], bounded="random models, features and values against an independent recursion",
                assume=[IDEAL, "models whose trees are well formed with consistent covers (P02, P06)"]),
    "P09": dict(units=GROW, bounded="random training runs: every split of every tree against an exhaustive search over all cuts of the offered features on the node's rows",
                assume=TREE),
    "P10": dict(units=GROW, bounded="random training runs with missing values: side or child of missing rows and its weight against the definition",
                assume=TREE),
    "P11": dict(units=["weights", "containers", "pivots", "sums", "histogram", "split_imp", "split_brn", "grow_imp", "grow_brn"], bounded="random nodes: every bin against a direct sum over the rows, subtracted histograms against direct ones",
                assume=[IDEAL]),
    "P24": dict(units=["weights", "containers", "pivots", "sums", "histogram", "split_brn", "grow_brn", "growers", "fit_brn"], bounded="random training runs with force_children_to_bound_parent: every split node against its children, no panic",
                assume=TREE),
    "P15": dict(units=["importance"], bounded="random models: every importance method and normalisation against a direct count over the nodes (includes the Python-facing maps)",
                assume=[IDEAL, "a HashMap walked by its iterator yields every entry once, in any order (assumed contract)", "at most 2^53 splits"]),
    "P16": dict(units=["booster", "containers", "predict"], bounded="random training runs with evaluation sets, metrics and early stopping (ties, NaN metrics): history, best iteration, stopping round and trees used, recomputed from the trees",
                assume=BOOST),
    "P17": dict(units=["sampler", "booster"], bounded="random seeds and rates: both samplers, the columns of every trained tree",
                assume=[IDEAL, "gen_range yields a value of the range, choose_multiple different positions, as many as asked for if there are as many; sort_unstable_by and sort sort (assumed contracts)", "top_rate and other_rate between 0 and 1, other_rate positive, fewer than 2^32 rows"] + BOOST[:1]),
    "P20": dict(units=["validate"], bounded="random parameters, labels and weights with NaN and negative values: construction and fitting, and the model after a rejected fit",
                assume=["fit_trees is an arbitrary function here: only whether and with what it is called matters", "the validate_float_parameter! macros are as pinned and expanded by the extractor (R23)"]),
    "P21": dict(units=["booster"], bounded="random training runs repeated: same booster refitted, fresh booster, parallel on and off", assume=BOOST),
    "P22": dict(units=["containers"], bounded="random matrices: every accessor against the cell formula", assume=[]),
    "P23": dict(units=["percentiles"], bounded="random values and weights: percentiles against an independent definition", assume=[IDEAL]),
}
# properties that are not claimed, with the reason
NOT_APPLICABLE = {
    "P25": "serde's derived code and serde_json's number formatting and parsing (external crates, generated code) decide it; no contract within reach expresses a JSON round trip on the real code",
    "P26": "the behaviour crosses the pyo3 / numpy boundary (C API, Python code); Verus cannot take in either side",
}
