use crate::common::*;
use crate::oracle::*;
use forust_ml::binning::bin_matrix;
use forust_ml::data::{JaggedMatrix, RowMajorMatrix};
use forust_ml::gradientbooster::{ContributionsMethod, ImportanceMethod};
use forust_ml::metric::*;
use forust_ml::objective::*;
use forust_ml::sampler::*;
use forust_ml::splitter::*;
use forust_ml::tree::Tree;
use forust_ml::utils::*;
use forust_ml::verif_hooks::HistogramMatrix;
use forust_ml::{GradientBooster, Matrix};
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::collections::HashMap;

macro_rules! req {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

// ------------------------------------------------------------------ tree level scenario
pub struct TreeScn {
    pub ds: Ds,
    pub cuts: Vec<Vec<f64>>,
    pub grad: Vec<f64>,
    pub hess: Vec<f64>,
    pub index: Vec<usize>,
    pub cols: Vec<usize>,
    pub pm: Pm,
    pub tree: Tree,
}

fn branch_splitter(pm: &Pm) -> MissingBranchSplitter {
    MissingBranchSplitter {
        l1: pm.l1,
        l2: pm.l2,
        max_delta_step: pm.mds,
        gamma: pm.gamma,
        min_leaf_weight: pm.mlw,
        learning_rate: pm.lr,
        allow_missing_splits: pm.ams,
        constraints_map: pm.cmap(),
        terminate_missing_features: pm.term.iter().copied().collect(),
        missing_node_treatment: pm.treatment(),
        force_children_to_bound_parent: pm.force,
    }
}
fn imputer_splitter(pm: &Pm) -> MissingImputerSplitter {
    MissingImputerSplitter::new(pm.l1, pm.l2, pm.mds, pm.gamma, pm.mlw, pm.lr, pm.ams, pm.cmap())
}
pub fn fit_tree(bdata: &Matrix<u16>, cuts: &JaggedMatrix<f64>, g: &[f32], h: &[f32], index: &[usize], cols: &[usize], pm: &Pm, sampled: bool) -> Tree {
    let mut tree = Tree::new();
    let sm = if !sampled { SampleMethod::None } else if index[0] % 2 == 0 { SampleMethod::Random } else { SampleMethod::Goss };
    if pm.cmb {
        tree.fit(bdata, index.to_vec(), cols, cuts, g, h, &branch_splitter(pm), pm.max_leaves, pm.max_depth, pm.parallel, &sm, &pm.policy());
    } else {
        tree.fit(bdata, index.to_vec(), cols, cuts, g, h, &imputer_splitter(pm), pm.max_leaves, pm.max_depth, pm.parallel, &sm, &pm.policy());
    }
    tree
}
#[cfg(feature = "spy")]
mod spy {
use super::*;
/// a splitter that looks at the histograms of every node it is asked to split, and otherwise leaves the work to the real one
struct Spy<S: Splitter> {
    real: S,
    found: std::cell::RefCell<Option<String>>,
    seen: std::cell::Cell<usize>,
}
impl<S: Splitter> Splitter for Spy<S> {
    fn new_leaves_added(&self) -> usize {
        self.real.new_leaves_added()
    }
    fn get_constraint(&self, feature: &usize) -> Option<&forust_ml::constraints::Constraint> {
        self.real.get_constraint(feature)
    }
    fn get_gamma(&self) -> f32 {
        self.real.get_gamma()
    }
    fn get_l1(&self) -> f32 {
        self.real.get_l1()
    }
    fn get_l2(&self) -> f32 {
        self.real.get_l2()
    }
    fn get_max_delta_step(&self) -> f32 {
        self.real.get_max_delta_step()
    }
    fn get_learning_rate(&self) -> f32 {
        self.real.get_learning_rate()
    }
    fn clean_up_splits(&self, tree: &mut Tree) {
        self.real.clean_up_splits(tree)
    }
    fn evaluate_split(&self, lg: f32, lh: f32, rg: f32, rh: f32, mg: f32, mh: f32, lo: f32, up: f32, pw: f32, c: Option<&forust_ml::constraints::Constraint>) -> Option<(NodeInfo, NodeInfo, MissingInfo)> {
        self.real.evaluate_split(lg, lh, rg, rh, mg, mh, lo, up, pw, c)
    }
    fn handle_split_info(&self, si: SplitInfo, n: &usize, node: &mut forust_ml::verif_hooks::SplittableNode, index: &mut [usize], ci: &[usize], data: &Matrix<u16>, cuts: &JaggedMatrix<f64>, grad: &[f32], hess: &[f32], parallel: bool) -> Vec<forust_ml::verif_hooks::SplittableNode> {
        self.real.handle_split_info(si, n, node, index, ci, data, cuts, grad, hess, parallel)
    }
    fn split_node(&self, n: &usize, node: &mut forust_ml::verif_hooks::SplittableNode, index: &mut [usize], ci: &[usize], data: &Matrix<u16>, cuts: &JaggedMatrix<f64>, grad: &[f32], hess: &[f32], parallel: bool) -> Vec<forust_ml::verif_hooks::SplittableNode> {
        self.seen.set(self.seen.get() + 1);
        if let Err(e) = hist_is(&node.histograms, &index[node.start_idx..node.stop_idx], ci, data.data, data.rows, cuts, grad, hess, &format!("node {}", node.num)) {
            self.found.borrow_mut().get_or_insert(e);
        }
        self.real.split_node(n, node, index, ci, data, cuts, grad, hess, parallel)
    }
}
pub fn spied<S: Splitter>(real: S, bdata: &Matrix<u16>, cuts: &JaggedMatrix<f64>, g: &[f32], h: &[f32], index: &[usize], cols: &[usize], pm: &Pm, sm: &SampleMethod) -> R {
    let spy = Spy { real, found: Default::default(), seen: Default::default() };
    let mut tree = Tree::new();
    tree.fit(bdata, index.to_vec(), cols, cuts, g, h, &spy, pm.max_leaves, pm.max_depth, pm.parallel, sm, &pm.policy());
    match spy.found.into_inner() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
}
#[cfg(feature = "spy")]
use spy::spied;
#[cfg(not(feature = "spy"))]
fn spied<S: Splitter>(_: S, _: &Matrix<u16>, _: &JaggedMatrix<f64>, _: &[f32], _: &[f32], _: &[usize], _: &[usize], _: &Pm, _: &SampleMethod) -> R {
    Ok(())
}
/// every bin holds the sums of the rows in it (dyadic gradients: exact)
fn hist_is(hm: &HistogramMatrix, ix: &[usize], cols: &[usize], bins: &[u16], rows: usize, cuts: &JaggedMatrix<f64>, g: &[f32], h: &[f32], what: &str) -> R {
    req!(hm.0.ends.len() == cols.len() && hm.0.cols == cols.len(), "{}: {} columns", what, hm.0.ends.len());
    for (k, &c) in cols.iter().enumerate() {
        let cut = cuts.get_col(c);
        let col = hm.0.get_col(k);
        req!(col.len() == cut.len(), "{}: column {} has {} bins for {} cuts", what, c, col.len(), cut.len());
        let mut e = vec![(0.0f64, 0.0f64); col.len()];
        for &i in ix {
            if let Some(x) = e.get_mut(bins[c * rows + i] as usize) {
                x.0 += g[i] as f64;
                x.1 += h[i] as f64;
            }
        }
        for (j, bin) in col.iter().enumerate() {
            req!(bin.gradient_sum as f64 == e[j].0 && bin.hessian_sum as f64 == e[j].1, "{}: column {} bin {}: sums ({}, {}) expected ({}, {})", what, c, j, bin.gradient_sum, bin.hessian_sum, e[j].0, e[j].1);
            if j > 0 {
                req!(bin.cut_value == cut[j - 1], "{}: column {} bin {}: cut {} expected {}", what, c, j, bin.cut_value, cut[j - 1]);
            }
        }
    }
    Ok(())
}

/// gradients and hessians are small dyadic numbers, so every sum the code forms is exact in f32
pub fn tree_scn(r: &mut Rng) -> TreeScn {
    let rows = gen_rows(r).min(500);
    let ds = gen_ds(r, rows);
    let pm = gen_pm(r, ds.cols);
    let hz = r.pick(&[0usize, 0, 10]);
    let gk = r.below(3);
    let sc = r.below(ds.cols);
    let grad: Vec<f64> = (0..rows)
        .map(|i| match gk {
            0 => r.below(33) as f64 / 4.0 - 4.0,
            1 => (if ds.at(i, sc) > 0.5 { 2.0 } else { -2.0 }) + r.below(9) as f64 / 4.0 - 1.0,
            _ => r.pick(&[-1.0, 1.0, 1.0, 2.0]),
        })
        .collect();
    let hk = r.below(2);
    let hess: Vec<f64> = (0..rows).map(|_| if r.chance(hz) { 0.0 } else if hk == 0 { 1.0 } else { r.range(1, 8) as f64 / 4.0 }).collect();
    let sampled = r.chance(30);
    let mut index: Vec<usize> = (0..rows).collect();
    if sampled {
        let keep = r.pick(&[70, 70, 100]);
        index.retain(|_| r.chance(keep));
        if index.is_empty() {
            index.push(0);
        }
        if r.chance(50) {
            r.shuffle(&mut index);
        }
    }
    let mut cols: Vec<usize> = (0..ds.cols).collect();
    if r.chance(25) {
        cols.retain(|_| r.chance(60));
    }
    ctx(format!("tree scenario: rows {} cols {} missing {:?} params {:?}\n index {:?}\n offered cols {:?}\n grad {:?}\n hess {:?}\n data (column major) {:?}", rows, ds.cols, ds.missing, pm, index, cols, grad, hess, ds.data));
    let m = Matrix::new(&ds.data, rows, ds.cols);
    let w = vec![1.0; rows];
    let b = bin_matrix(&m, &w, pm.nbins, ds.missing).unwrap();
    let bd = Matrix::new(&b.binned_data, rows, ds.cols);
    let g: Vec<f32> = grad.iter().map(|v| *v as f32).collect();
    let h: Vec<f32> = hess.iter().map(|v| *v as f32).collect();
    let tree = fit_tree(&bd, &b.cuts, &g, &h, &index, &cols, &pm, sampled);
    ctx(format!("tree:\n{}", tree));
    let cuts = (0..ds.cols)
        .map(|c| {
            let s = b.cuts.get_col(c);
            s[..s.len() - 1].to_vec()
        })
        .collect();
    TreeScn { ds, cuts, grad, hess, index, cols, pm, tree }
}
fn tree_fails(s: &TreeScn) -> Fails {
    check_tree(&s.tree, &Tc { ds: &s.ds, cuts: s.cuts.clone(), grad: &s.grad, hess: &s.hess, index: &s.index, cols: &s.cols, pm: &s.pm, exact: true })
}

// ------------------------------------------------------------------ booster level scenario
pub struct Scn {
    pub ds: Ds,
    pub y: Vec<f64>,
    pub w: Vec<f64>,
    pub bp: Bp,
    pub evals: Vec<(Ds, Vec<f64>, Vec<f64>)>,
    pub b: GradientBooster,
}
pub fn scn_inputs(r: &mut Rng, tweak: &dyn Fn(&mut Rng, &mut Bp)) -> Scn {
    let rows = gen_rows(r).max(2);
    let ds = gen_ds(r, rows);
    let mut bp = gen_bp(r, ds.cols);
    tweak(r, &mut bp);
    let mut w = gen_weights(r, rows);
    let y = gen_y(r, rows, &bp.obj(), &mut w, &ds);
    let mut evals = Vec::new();
    if r.chance(50) {
        for _ in 0..r.range(1, 2) {
            let n = r.range(2, 30);
            let none: Vec<Vec<f64>> = vec![Vec::new(); ds.cols];
            let e = gen_like(r, &ds, n, &none);
            let mut ew = gen_weights(r, n);
            let ey = gen_y(r, n, &bp.obj(), &mut ew, &e);
            evals.push((e, ey, ew));
        }
    }
    ctx(format!("booster scenario: rows {} cols {} missing {:?}\n params {:?}\n y {:?}\n weights {:?}\n data (column major) {:?}\n eval sets {:?}", rows, ds.cols, ds.missing, bp, y, w, ds.data, evals));
    let b = bp.build(ds.missing);
    Scn { ds, y, w, bp, evals, b }
}
pub fn fit_scn(s: &Scn, b: &mut GradientBooster) -> R {
    let m = Matrix::new(&s.ds.data, s.ds.rows, s.ds.cols);
    let ev = if s.evals.is_empty() {
        None
    } else {
        Some(s.evals.iter().map(|(e, y, w)| (Matrix::new(&e.data, e.rows, e.cols), y.as_slice(), w.as_slice())).collect::<Vec<_>>())
    };
    b.fit(&m, &s.y, &s.w, ev).map_err(|e| format!("fit on valid input failed: {}", e))
}
pub fn scn(r: &mut Rng, tweak: &dyn Fn(&mut Rng, &mut Bp)) -> Result<Scn, String> {
    let mut s = scn_inputs(r, tweak);
    let mut b = std::mem::replace(&mut s.b, GradientBooster::default());
    fit_scn(&s, &mut b)?;
    s.b = b;
    let mut t = String::new();
    for (i, x) in s.b.trees.iter().enumerate() {
        t.push_str(&format!("tree {}:\n{}", i, x));
    }
    ctx(format!("base_score {} prediction_iteration {:?}\n{}", s.b.base_score, s.b.prediction_iteration, t));
    Ok(s)
}
fn nothing(_: &mut Rng, _: &mut Bp) {}

fn used(b: &GradientBooster) -> &[Tree] {
    &b.trees[..b.prediction_iteration.unwrap_or(b.trees.len())]
}
fn my_pred(trees: &[Tree], base: f64, row: &[f64], missing: f64) -> f64 {
    let mut p = base;
    for t in trees {
        p += t.nodes[leaf_of(t, row, missing)].weight_value as f64;
    }
    p
}
fn all_struct(b: &GradientBooster) -> R {
    for t in &b.trees {
        check_struct(t, b.create_missing_branch)?;
    }
    Ok(())
}
fn sig(v: f64) -> f64 {
    1.0 / (1.0 + (-v).exp())
}
pub fn my_gh(log: bool, y: f64, yh: f64, w: f64) -> (f64, f64) {
    if log {
        let p = sig(yh);
        ((p - y) * w, p * (1.0 - p) * w)
    } else {
        ((yh - y) * w, w)
    }
}

/// every tree of a fitted booster against the oracle (no row or column sampling)
fn booster_fails(s: &Scn) -> Fails {
    let mut out = Vec::new();
    if all_struct(&s.b).is_err() {
        return vec![("struct", all_struct(&s.b).unwrap_err())];
    }
    let m = Matrix::new(&s.ds.data, s.ds.rows, s.ds.cols);
    let bin = bin_matrix(&m, &s.w, s.bp.pm.nbins, s.ds.missing).unwrap();
    let cuts: Vec<Vec<f64>> = (0..s.ds.cols)
        .map(|c| {
            let v = bin.cuts.get_col(c);
            v[..v.len() - 1].to_vec()
        })
        .collect();
    let index: Vec<usize> = (0..s.ds.rows).collect();
    let cols: Vec<usize> = (0..s.ds.cols).collect();
    let mut yh = vec![s.b.base_score; s.ds.rows];
    for (k, t) in s.b.trees.iter().enumerate() {
        let gh: Vec<(f64, f64)> = (0..s.ds.rows)
            .map(|i| {
                let (g, h) = my_gh(s.bp.log, s.y[i], yh[i], s.w[i]);
                (g as f32 as f64, h as f32 as f64)
            })
            .collect();
        let grad: Vec<f64> = gh.iter().map(|x| x.0).collect();
        let hess: Vec<f64> = gh.iter().map(|x| x.1).collect();
        if hess.iter().sum::<f64>() < 1e-2 || grad.iter().any(|g| !g.is_finite()) {
            break;
        }
        for (c, e) in check_tree(t, &Tc { ds: &s.ds, cuts: cuts.clone(), grad: &grad, hess: &hess, index: &index, cols: &cols, pm: &s.bp.pm, exact: false }) {
            out.push((c, format!("tree {}: {}", k, e)));
        }
        for i in 0..s.ds.rows {
            yh[i] += t.nodes[leaf_of(t, &s.ds.row(i), s.ds.missing)].weight_value as f64;
        }
    }
    out
}
fn only(f: Fails, cats: &[&str]) -> R {
    for (c, e) in f {
        if cats.contains(&c) || c == "struct" {
            return Err(format!("[{}] {}", c, e));
        }
    }
    Ok(())
}
fn nosample(_: &mut Rng, b: &mut Bp) {
    b.sample = 0;
    b.colsample = 1.0;
    b.iterations = b.iterations.min(5).max(1);
}
fn grown(r: &mut Rng, cats: &[&str], tweak_pm: &dyn Fn(&mut Rng, &mut Bp)) -> R {
    if r.chance(75) {
        let s = tree_scn(r);
        only(tree_fails(&s), cats)
    } else {
        let s = scn(r, &|r, b| {
            nosample(r, b);
            tweak_pm(r, b)
        })?;
        only(booster_fails(&s), cats)
    }
}

// ------------------------------------------------------------------ properties
pub fn p01(r: &mut Rng) -> R {
    let mut s = scn(r, &nothing)?;
    all_struct(&s.b)?;
    if r.chance(30) && !s.b.trees.is_empty() {
        let k = r.below(s.b.trees.len());
        s.b.prediction_iteration = Some(k + if r.chance(50) { 1 } else { 0 });
        ctx(format!("prediction_iteration set to {:?}", s.b.prediction_iteration));
    }
    let cuts = tree_cuts(&s.b, s.ds.cols);
    let n = match r.below(40) {
        0 => r.range(1000, 5000),
        1..=5 => r.range(65, 400),
        _ => r.range(1, 40),
    };
    let t = gen_like(r, &s.ds, n, &cuts);
    let m = Matrix::new(&t.data, n, t.cols);
    let a = s.b.predict(&m, false);
    let b = s.b.predict(&m, true);
    let li = s.b.predict_leaf_indices(&m);
    let ut = used(&s.b);
    req!(a.len() == n && b.len() == n, "{} / {} predictions for {} rows", a.len(), b.len(), n);
    req!(li.len() == n * ut.len(), "{} leaf indices for {} rows and {} trees", li.len(), n, ut.len());
    for i in 0..n {
        let row = t.row(i);
        let e = my_pred(ut, s.b.base_score, &row, t.missing);
        req!(close(a[i], e, 1e-12), "row {:?}: predicted {} but the leaves reached sum to {}", row, a[i], e);
        req!(a[i].to_bits() == b[i].to_bits(), "row {:?}: sequential {} parallel {}", row, a[i], b[i]);
        for (k, tr) in ut.iter().enumerate() {
            let l = leaf_of(tr, &row, t.missing);
            req!(li[k * n + i] == l, "row {:?} tree {}: leaf index {} but reaches {}", row, k, li[k * n + i], l);
            let w = tr.predict_row_from_row_slice(&row, &t.missing);
            req!(w == tr.nodes[l].weight_value as f64 || w.is_nan(), "row {:?} tree {}: row prediction {} leaf {}", row, k, w, tr.nodes[l].weight_value);
        }
    }
    // a row's prediction does not depend on the rows around it
    for _ in 0..3 {
        let i = r.below(n);
        let one = t.row(i);
        let p = s.b.predict(&Matrix::new(&one, 1, t.cols), r.chance(50));
        req!(p[0].to_bits() == a[i].to_bits(), "row {:?}: alone {} among others {}", one, p[0], a[i]);
    }
    Ok(())
}
pub fn p02(r: &mut Rng) -> R {
    if r.chance(60) {
        let s = tree_scn(r);
        check_struct(&s.tree, s.pm.cmb)
    } else {
        let s = scn(r, &nothing)?;
        all_struct(&s.b)
    }
}
pub fn p03(r: &mut Rng) -> R {
    if r.chance(75) {
        let s = tree_scn(r);
        only(tree_fails(&s), &["limits", "order"])
    } else {
        let s = scn(r, &nothing)?;
        req!(s.b.trees.len() <= s.bp.iterations, "{} trees > {} iterations", s.b.trees.len(), s.bp.iterations);
        if s.bp.early.is_none() || s.evals.is_empty() {
            req!(s.b.trees.len() == s.bp.iterations, "{} trees, {} iterations asked for", s.b.trees.len(), s.bp.iterations);
        }
        for t in &s.b.trees {
            let leaves = t.nodes.iter().filter(|n| n.is_leaf).count();
            req!(leaves <= s.bp.pm.max_leaves.max(1), "{} leaves > max_leaves {}", leaves, s.bp.pm.max_leaves);
            for n in &t.nodes {
                req!(n.depth <= s.bp.pm.max_depth, "depth {} > max_depth {}", n.depth, s.bp.pm.max_depth);
            }
        }
        if s.bp.sample == 0 && s.bp.colsample == 1.0 && s.bp.iterations > 0 {
            only(booster_fails(&s), &["limits", "order"])?;
        }
        Ok(())
    }
}
pub fn p04(r: &mut Rng) -> R {
    let (ds, nbins, w) = if r.chance(1) && r.chance(8) {
        // bins near the capacity of u16
        let rows = 65_537 + r.below(3);
        let ds = Ds { rows, cols: 1, data: (0..rows).map(|i| i as f64).collect(), missing: f64::NAN };
        (ds, r.pick(&[65_535u16, 65_534, 60_000]), vec![1.0; rows])
    } else {
        let rows = gen_rows(r);
        let ds = gen_ds(r, rows);
        let nbins = r.pick(&[1u16, 2, 3, 4, 5, 8, 10, 33, 100, 256, 1000]);
        let mut w = gen_weights(r, rows);
        // the non-missing rows of every column need some weight
        for j in 0..ds.cols {
            let nm: Vec<usize> = (0..rows).filter(|&i| !ds.is_miss(ds.at(i, j))).collect();
            if !nm.is_empty() && nm.iter().map(|&i| w[i]).sum::<f64>() <= 0.0 {
                w[nm[0]] = 1.0;
            }
        }
        (ds, nbins, w)
    };
    if ds.rows < 3000 {
        ctx(format!("bin_matrix: rows {} cols {} nbins {} missing {:?} weights {:?} data {:?}", ds.rows, ds.cols, nbins, ds.missing, w, ds.data));
    } else {
        ctx(format!("bin_matrix: one column 0..{} nbins {} unit weights", ds.rows, nbins));
    }
    let m = Matrix::new(&ds.data, ds.rows, ds.cols);
    let b = bin_matrix(&m, &w, nbins, ds.missing).map_err(|e| e.to_string())?;
    req!(b.binned_data.len() == ds.data.len(), "{} binned values for {}", b.binned_data.len(), ds.data.len());
    req!(b.cuts.ends.len() == ds.cols && b.cuts.cols == ds.cols && b.nunique.len() == ds.cols, "cuts for {} columns, {} expected", b.cuts.ends.len(), ds.cols);
    req!(*b.cuts.ends.last().unwrap() == b.cuts.data.len(), "ends and data of the cuts disagree");
    for j in 0..ds.cols {
        let c = b.cuts.get_col(j);
        req!(!c.is_empty() && *c.last().unwrap() == f64::MAX, "column {}: cuts {:?} do not end in f64::MAX", j, c);
        req!(c.windows(2).all(|x| x[0] < x[1]), "column {}: cuts {:?} not strictly increasing", j, c);
        req!(b.nunique[j] == c.len(), "column {}: nunique {} for {} cuts", j, b.nunique[j], c.len());
        let mut u: Vec<f64> = (0..ds.rows).map(|i| ds.at(i, j)).filter(|v| !ds.is_miss(*v)).collect();
        u.sort_by(|a, b| a.partial_cmp(b).unwrap());
        u.dedup();
        for v in &c[..c.len() - 1] {
            req!(u.binary_search_by(|x| x.partial_cmp(v).unwrap()).is_ok(), "column {}: cut {} is not a value of the column", j, v);
        }
        if !u.is_empty() {
            req!(c[0] == u[0], "column {}: first cut {} is not the smallest value {}", j, c[0], u[0]);
        }
        if u.len() <= nbins as usize {
            req!(c[..c.len() - 1] == u[..], "column {}: {} unique values but cuts {:?}", j, u.len(), c);
        }
        req!(c.len() <= nbins as usize + 2, "column {}: {} cuts for nbins {}", j, c.len(), nbins);
        for i in 0..ds.rows {
            let v = ds.at(i, j);
            let bin = b.binned_data[j * ds.rows + i] as usize;
            if ds.is_miss(v) {
                req!(bin == 0, "column {} row {}: missing value in bin {}", j, i, bin);
            } else {
                let e = c.partition_point(|x| *x <= v);
                req!(bin == e && bin >= 1, "column {} row {}: value {} in bin {} expected {}", j, i, v, bin, e);
            }
        }
    }
    Ok(())
}
pub fn p05(r: &mut Rng) -> R {
    // exhaustive on short columns (once per run), random on longer ones
    let one = |f: &[u16], ix0: &[usize], s: u16| -> R {
        for mr in [false, true] {
            let mut ix = ix0.to_vec();
            let k = pivot_on_split(&mut ix, f, s, mr);
            let left = |i: &usize| if f[*i] == 0 { !mr } else { f[*i] < s };
            let mut a = ix.clone();
            a.sort();
            let mut b = ix0.to_vec();
            b.sort();
            req!(a == b, "pivot_on_split: index {:?} became {:?} (bins {:?} split {} missing_right {})", ix0, ix, f, s, mr);
            req!(k <= ix.len() && ix[..k].iter().all(left) && ix[k..].iter().all(|i| !left(i)), "pivot_on_split: bins {:?} index {:?} split {} missing_right {} gave {:?} boundary {}", f, ix0, s, mr, ix, k);
        }
        let mut ix = ix0.to_vec();
        let (m, k) = pivot_on_split_exclude_missing(&mut ix, f, s);
        let mut a = ix.clone();
        a.sort();
        let mut b = ix0.to_vec();
        b.sort();
        req!(a == b, "pivot_on_split_exclude_missing: index {:?} became {:?}", ix0, ix);
        req!(
            m <= k && k <= ix.len() && ix[..m].iter().all(|i| f[*i] == 0) && ix[m..k].iter().all(|i| f[*i] != 0 && f[*i] < s) && ix[k..].iter().all(|i| f[*i] >= s),
            "pivot_on_split_exclude_missing: bins {:?} index {:?} split {} gave {:?} boundaries {} {}",
            f, ix0, s, ix, m, k
        );
        Ok(())
    };
    if EXH.with(|e| !e.replace(true)) {
        for n in 0..=6usize {
            for code in 0..4usize.pow(n as u32) {
                let f: Vec<u16> = (0..n).map(|i| ((code / 4usize.pow(i as u32)) % 4) as u16).collect();
                let ix: Vec<usize> = (0..n).collect();
                for s in 1..=3 {
                    one(&f, &ix, s)?;
                }
            }
        }
    }
    let n = gen_rows(r);
    let k = r.range(1, 300);
    let mp = r.pick(&[0usize, 10, 50, 90]);
    let f: Vec<u16> = (0..n).map(|_| if r.chance(mp) { 0 } else { r.range(1, k) as u16 }).collect();
    let mut ix: Vec<usize> = (0..n).filter(|_| r.chance(80)).collect();
    if r.chance(50) {
        r.shuffle(&mut ix);
    }
    let s = r.range(1, k + 1) as u16;
    one(&f, &ix, s)?;
    // and through training: every row of the training index ends in exactly one leaf with matching totals
    if r.chance(30) {
        let s = tree_scn(r);
        only(tree_fails(&s), &["cover"])?;
    }
    Ok(())
}
thread_local! { static EXH: std::cell::Cell<bool> = std::cell::Cell::new(false); }

pub fn p06(r: &mut Rng) -> R {
    grown(r, &["cover"], &nothing)
}
pub fn p07(r: &mut Rng) -> R {
    let s = scn(r, &|r, b| {
        if b.pm.cons.is_empty() || r.chance(30) {
            b.pm.cons = vec![(0, r.below(2) as u8)];
        }
        b.iterations = b.iterations.max(1);
        b.pm.max_depth = b.pm.max_depth.max(2);
    })?;
    all_struct(&s.b)?;
    let cuts = tree_cuts(&s.b, s.ds.cols);
    for f in 0..s.ds.cols {
        let c = s.bp.pm.con(f);
        if c == 0 || cuts[f].is_empty() {
            continue;
        }
        let mut vals: Vec<f64> = cuts[f].iter().flat_map(|v| vec![*v, *v - v.abs() * 1e-6 - 1e-6]).collect();
        vals.push(-1e305);
        vals.push(1e305);
        vals.retain(|v| !s.ds.is_miss(*v));
        vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
        vals.dedup();
        for _ in 0..12 {
            let mut base = gen_like(r, &s.ds, 1, &cuts).row(0);
            if r.chance(50) {
                base = s.ds.row(r.below(s.ds.rows));
            }
            let mut data = Vec::new();
            for j in 0..s.ds.cols {
                for v in &vals {
                    data.push(if j == f { *v } else { base[j] });
                }
            }
            let p = s.b.predict(&Matrix::new(&data, vals.len(), s.ds.cols), false);
            for i in 1..p.len() {
                let d = (p[i] - p[i - 1]) * c as f64;
                req!(!(d < -1e-5 * (1.0 + p[i].abs())), "feature {} constrained {}: raising it from {} to {} (others {:?}) moves the prediction from {} to {}", f, c, vals[i - 1], vals[i], base, p[i - 1], p[i]);
            }
        }
    }
    Ok(())
}
pub fn p08(r: &mut Rng) -> R {
    // the exported helper on raw inputs
    let pm = gen_pm(r, 1);
    let g = r.below(81) as f32 / 4.0 - 10.0;
    let h = r.range(1, 60) as f32 / 4.0;
    let w = weight(&pm.l1, &pm.l2, &pm.mds, g, h);
    let e = wt(&pm, g as f64, h as f64);
    ctx(format!("weight(l1 {}, l2 {}, max_delta_step {}, {}, {}) = {}", pm.l1, pm.l2, pm.mds, g, h, w));
    req!(close(w as f64, e, 1e-5), "leaf weight {} expected {}", w, e);
    grown(r, &["weight"], &nothing)
}
pub fn p09(r: &mut Rng) -> R {
    grown(r, &["split"], &nothing)
}
pub fn p10(r: &mut Rng) -> R {
    grown(r, &["missing"], &|_, b| b.pm.cmb = true)
}
pub fn p24(r: &mut Rng) -> R {
    // the exported helper on raw inputs: children that bracket the parent stay, otherwise one is moved onto it
    let pool = [-2.0f32, -1.0, -0.5, -0.0, 0.0, 0.25, 0.5, 1.0, 3.0];
    let (p, a, b) = (r.pick(&pool), r.pick(&pool), r.pick(&pool));
    let (l, q) = bound_to_parent(p, a, b);
    ctx(format!("bound_to_parent({}, {}, {}) = ({}, {})", p, a, b, l, q));
    req!(l.min(q) <= p && p <= l.max(q), "parent {} is not between {} and {}", p, l, q);
    if a.min(b) <= p && p <= a.max(b) {
        req!(l == a && q == b, "children {} {} bracket {} but became {} {}", a, b, p, l, q);
    } else {
        req!((l == a && q == p) || (l == p && q == b), "children {} {} around {} became {} {}", a, b, p, l, q);
        req!((a <= b) == (l <= q) || l == q, "children {} {} changed order to {} {}", a, b, l, q);
    }
    grown(r, &["force"], &|_, b| {
        b.pm.cmb = true;
        b.pm.force = true;
    })
}
pub fn p11(r: &mut Rng) -> R {
    let rows = gen_rows(r).min(600);
    let ds = gen_ds(r, rows);
    let nbins = r.pick(&[1u16, 2, 5, 16, 256]);
    let m = Matrix::new(&ds.data, rows, ds.cols);
    let b = bin_matrix(&m, &vec![1.0; rows], nbins, ds.missing).unwrap();
    let bd = Matrix::new(&b.binned_data, rows, ds.cols);
    let g: Vec<f32> = (0..rows).map(|_| r.below(65) as f32 / 8.0 - 4.0).collect();
    let h: Vec<f32> = (0..rows).map(|_| r.below(17) as f32 / 8.0).collect();
    let mut cols: Vec<usize> = (0..ds.cols).collect();
    if r.chance(40) {
        cols.retain(|_| r.chance(60));
    }
    let full = r.chance(30);
    let mut ix: Vec<usize> = (0..rows).filter(|_| full || r.chance(70)).collect();
    if !full {
        r.shuffle(&mut ix);
    }
    ctx(format!("histogram: nbins {} rows {:?} cols {:?} bins {:?} grad {:?} hess {:?}", nbins, ix, cols, b.binned_data, g, h));
    let sort = !full || r.chance(50);
    let check = |hm: &HistogramMatrix, ix: &[usize], what: &str| -> R { hist_is(hm, ix, &cols, &b.binned_data, rows, &b.cuts, &g, &h, what) };
    let whole = HistogramMatrix::new(&bd, &b.cuts, &g, &h, &ix, &cols, r.chance(50), sort);
    check(&whole, &ix, "direct")?;
    let cut1 = r.below(ix.len() + 1);
    let cut2 = cut1 + r.below(ix.len() - cut1 + 1);
    let h1 = HistogramMatrix::new(&bd, &b.cuts, &g, &h, &ix[..cut1], &cols, r.chance(50), true);
    check(&h1, &ix[..cut1], "child")?;
    check(&HistogramMatrix::from_parent_child(&whole, &h1), &ix[cut1..], "parent minus child")?;
    let h2 = HistogramMatrix::new(&bd, &b.cuts, &g, &h, &ix[cut1..cut2], &cols, r.chance(50), true);
    check(&HistogramMatrix::from_parent_two_children(&whole, &h1, &h2), &ix[cut2..], "parent minus two children")?;
    // every node of a tree grown on these rows
    if r.chance(50) && !cols.is_empty() && !ix.is_empty() {
        let pm = gen_pm(r, ds.cols);
        let sm = if full && r.chance(50) { SampleMethod::None } else { if r.chance(50) { SampleMethod::Random } else { SampleMethod::Goss } };
        let mut ix = ix.clone();
        if full && !matches!(sm, SampleMethod::None) && r.chance(70) {
            r.shuffle(&mut ix);
        }
        ctx(format!("tree: params {:?} sampling {} rows {:?}", pm, if matches!(sm, SampleMethod::None) { "none" } else { "random or goss" }, ix));
        if pm.cmb {
            spied(branch_splitter(&pm), &bd, &b.cuts, &g, &h, &ix, &cols, &pm, &sm)?;
        } else {
            spied(imputer_splitter(&pm), &bd, &b.cuts, &g, &h, &ix, &cols, &pm, &sm)?;
        }
    }
    // totals
    let n = r.range(0, 80);
    let v: Vec<f32> = (0..n).map(|_| r.below(257) as f32 / 8.0 - 16.0).collect();
    let e: f64 = v.iter().map(|x| *x as f64).sum();
    req!(fast_f64_sum(&v) as f64 == e, "fast_f64_sum({:?}) = {} expected {}", v, fast_f64_sum(&v), e);
    req!(fast_sum(&v) as f64 == e && naive_sum(&v) as f64 == e, "fast_sum({:?}) = {} expected {}", v, fast_sum(&v), e);
    Ok(())
}

fn contrib_case(r: &mut Rng, f: &dyn Fn(&mut Bp)) -> Result<(Scn, Ds), String> {
    let mut s = scn(r, &|_, b| {
        b.iterations = b.iterations.max(1).min(5);
        f(b)
    })?;
    all_struct(&s.b)?;
    if r.chance(15) && !s.b.trees.is_empty() {
        s.b.prediction_iteration = Some(r.below(s.b.trees.len() + 1));
        ctx(format!("prediction_iteration set to {:?}", s.b.prediction_iteration));
    }
    let cuts = tree_cuts(&s.b, s.ds.cols);
    let n = if r.chance(5) { r.range(100, 300) } else { r.range(1, 12) };
    let t = gen_like(r, &s.ds, n, &cuts);
    ctx(format!("rows explained (column major): {:?}", t.data));
    Ok((s, t))
}
fn avg_weights(t: &Tree, n: usize, out: &mut Vec<f64>) -> f64 {
    let nd = &t.nodes[n];
    let w = if nd.is_leaf {
        nd.weight_value as f64
    } else {
        let mut ch = vec![nd.left_child, nd.right_child];
        if nd.missing_node != nd.left_child && nd.missing_node != nd.right_child {
            ch.push(nd.missing_node);
        }
        let mut s = 0.0;
        for c in ch {
            s += t.nodes[c].hessian_sum as f64 * avg_weights(t, c, out);
        }
        s / nd.hessian_sum as f64
    };
    out[n] = w;
    w
}
pub fn p12(r: &mut Rng) -> R {
    let shap = r.chance(25);
    let (s, t) = contrib_case(r, &|b| {
        if shap {
            b.pm.max_depth = b.pm.max_depth.min(4);
            b.pm.mlw = b.pm.mlw.max(0.5);
        }
    })?;
    let (n, k) = (t.rows, t.cols);
    let m = Matrix::new(&t.data, n, k);
    let pred = s.b.predict(&m, false);
    let ut = used(&s.b);
    let par = r.chance(50);
    let go = |me: ContributionsMethod| -> Result<Vec<f64>, String> {
        let v = s.b.predict_contributions(&m, me, par);
        if v.len() != n * (k + 1) {
            return Err(format!("{} contributions for {} rows of {} features", v.len(), n, k));
        }
        Ok(v)
    };
    let sum = |v: &[f64], i: usize| v[i * (k + 1)..(i + 1) * (k + 1)].iter().sum::<f64>();
    let cw = go(ContributionsMethod::Weight)?;
    let ca = go(ContributionsMethod::Average)?;
    let cp = if s.bp.log { Some(go(ContributionsMethod::ProbabilityChange)?) } else { None };
    let avgs: Vec<Vec<f64>> = ut
        .iter()
        .map(|t| {
            let mut o = vec![0.0; t.nodes.len()];
            avg_weights(t, 0, &mut o);
            o
        })
        .collect();
    for i in 0..n {
        let row = t.row(i);
        req!(close(sum(&cw, i), pred[i], 1e-5), "Weight contributions of {:?} sum to {} but the prediction is {}", row, sum(&cw, i), pred[i]);
        let finite = avgs.iter().flatten().all(|v| v.is_finite() && v.abs() < 1e6);
        if finite {
            req!(close(sum(&ca, i), pred[i], 1e-5), "Average contributions of {:?} sum to {} but the prediction is {}", row, sum(&ca, i), pred[i]);
        }
        if let Some(c) = &cp {
            req!(close(sum(c, i), sig(pred[i]), 1e-5), "ProbabilityChange contributions of {:?} sum to {} but the probability is {}", row, sum(c, i), sig(pred[i]));
        }
        // per feature definitions
        let mut ew = vec![0.0; k + 1];
        let mut ea = vec![0.0; k + 1];
        let mut ep = vec![0.0; k + 1];
        ew[k] = s.b.base_score;
        ea[k] = s.b.base_score;
        ep[k] = sig(s.b.base_score);
        let mut lo = s.b.base_score;
        for (tr, av) in ut.iter().zip(&avgs) {
            let p = route(tr, &row, t.missing);
            let wv = |x: usize| tr.nodes[x].weight_value as f64;
            ew[k] += wv(0);
            ea[k] += av[0];
            ep[k] += sig(lo + wv(0)) - sig(lo);
            for q in p.windows(2) {
                let f = tr.nodes[q[0]].split_feature;
                ew[f] += wv(q[1]) - wv(q[0]);
                ea[f] += av[q[1]] - av[q[0]];
                ep[f] += sig(lo + wv(q[1])) - sig(lo + wv(q[0]));
            }
            lo += wv(*p.last().unwrap());
        }
        for j in 0..=k {
            let x = i * (k + 1) + j;
            req!(close(cw[x], ew[j], 1e-6), "Weight contribution of feature {} for {:?}: {} expected {}", j, row, cw[x], ew[j]);
            if finite {
                req!(close(ca[x], ea[j], 1e-5), "Average contribution of feature {} for {:?}: {} expected {}", j, row, ca[x], ea[j]);
            }
            if let Some(c) = &cp {
                req!(close(c[x], ep[j], 1e-6), "ProbabilityChange contribution of feature {} for {:?}: {} expected {}", j, row, c[x], ep[j]);
            }
        }
    }
    if shap && k <= 6 {
        // covers have to be positive for the conditional expectations to exist
        if ut.iter().any(|t| t.nodes.iter().any(|n| !n.is_leaf && [n.left_child, n.right_child].iter().any(|c| t.nodes[*c].hessian_sum < 0.05))) {
            return Ok(());
        }
        let cs = go(ContributionsMethod::Shapley)?;
        for i in 0..n.min(4) {
            let row = t.row(i);
            req!(close(sum(&cs, i), pred[i], 2e-3), "Shapley contributions of {:?} sum to {} but the prediction is {}", row, sum(&cs, i), pred[i]);
            let mut es = vec![0.0; k + 1];
            es[k] = s.b.base_score;
            for tr in ut {
                let val: Vec<f64> = (0..1usize << k).map(|sub| cond_exp(tr, 0, &row, t.missing, sub)).collect();
                es[k] += val[0];
                for j in 0..k {
                    for sub in 0..1usize << k {
                        if sub >> j & 1 == 1 {
                            continue;
                        }
                        let q = sub.count_ones() as usize;
                        let wgt = fact(q) * fact(k - q - 1) / fact(k);
                        es[j] += wgt * (val[sub | 1 << j] - val[sub]);
                    }
                }
            }
            for j in 0..=k {
                let x = i * (k + 1) + j;
                req!(close(cs[x], es[j], 5e-3), "Shapley contribution of feature {} for {:?}: {} expected {}", j, row, cs[x], es[j]);
            }
        }
    }
    Ok(())
}
fn fact(n: usize) -> f64 {
    (1..=n).map(|x| x as f64).product()
}
fn cond_exp(t: &Tree, n: usize, row: &[f64], missing: f64, sub: usize) -> f64 {
    let nd = &t.nodes[n];
    if nd.is_leaf {
        return nd.weight_value as f64;
    }
    if sub >> nd.split_feature & 1 == 1 {
        let v = row[nd.split_feature];
        let c = if is_miss(v, missing) {
            nd.missing_node
        } else if v < nd.split_value {
            nd.left_child
        } else {
            nd.right_child
        };
        return cond_exp(t, c, row, missing, sub);
    }
    let mut ch = vec![nd.left_child, nd.right_child];
    if nd.missing_node != nd.left_child && nd.missing_node != nd.right_child {
        ch.push(nd.missing_node);
    }
    ch.iter().map(|c| t.nodes[*c].hessian_sum as f64 / nd.hessian_sum as f64 * cond_exp(t, *c, row, missing, sub)).sum()
}
pub fn p13(r: &mut Rng) -> R {
    let (s, t) = contrib_case(r, &|_| {})?;
    let (n, k) = (t.rows, t.cols);
    let m = Matrix::new(&t.data, n, k);
    let par = r.chance(50);
    let cb = s.b.predict_contributions(&m, ContributionsMethod::BranchDifference, par);
    let cm = s.b.predict_contributions(&m, ContributionsMethod::MidpointDifference, par);
    let cd = s.b.predict_contributions(&m, ContributionsMethod::ModeDifference, par);
    req!(cb.len() == n * (k + 1) && cm.len() == cb.len() && cd.len() == cb.len(), "wrong number of contributions");
    for i in 0..n {
        let row = t.row(i);
        let mut eb = vec![0.0; k + 1];
        let mut em = vec![0.0; k + 1];
        let mut ed = vec![0.0; k + 1];
        eb[k] = s.b.base_score;
        em[k] = s.b.base_score;
        ed[k] = s.b.base_score;
        for tr in used(&s.b) {
            let p = route(tr, &row, t.missing);
            for q in p.windows(2) {
                let nd = &tr.nodes[q[0]];
                let third = nd.missing_node != nd.left_child && nd.missing_node != nd.right_child;
                if third && q[1] == nd.missing_node {
                    continue;
                }
                let f = nd.split_feature;
                let o = if q[1] == nd.left_child { nd.right_child } else { nd.left_child };
                let w = |x: usize| tr.nodes[x].weight_value as f64;
                let h = |x: usize| tr.nodes[x].hessian_sum as f64;
                eb[f] += w(q[1]) - w(o);
                em[f] += w(q[1]) - (w(q[1]) * h(q[1]) + w(o) * h(o)) / (h(q[1]) + h(o));
                let (l, rr) = (nd.left_child, nd.right_child);
                ed[f] += if h(l) == h(rr) {
                    0.0
                } else if h(l) > h(rr) {
                    w(q[1]) - w(l)
                } else {
                    w(q[1]) - w(rr)
                };
            }
        }
        for j in 0..=k {
            let x = i * (k + 1) + j;
            req!(close(cb[x], eb[j], 1e-4), "BranchDifference contribution of feature {} for {:?}: {} expected {}", j, row, cb[x], eb[j]);
            req!(close(cm[x], em[j], 1e-4), "MidpointDifference contribution of feature {} for {:?}: {} expected {}", j, row, cm[x], em[j]);
            req!(close(cd[x], ed[j], 1e-4), "ModeDifference contribution of feature {} for {:?}: {} expected {}", j, row, cd[x], ed[j]);
        }
    }
    Ok(())
}
fn my_pd(t: &Tree, n: usize, f: usize, v: f64, missing: f64) -> f64 {
    let nd = &t.nodes[n];
    if nd.is_leaf {
        return nd.weight_value as f64;
    }
    if nd.split_feature == f {
        let c = if is_miss(v, missing) {
            nd.missing_node
        } else if v < nd.split_value {
            nd.left_child
        } else {
            nd.right_child
        };
        return my_pd(t, c, f, v, missing);
    }
    let mut ch = vec![nd.left_child, nd.right_child];
    if nd.missing_node != nd.left_child && nd.missing_node != nd.right_child {
        ch.push(nd.missing_node);
    }
    let tot: f64 = ch.iter().map(|c| t.nodes[*c].hessian_sum as f64).sum();
    ch.iter().map(|c| t.nodes[*c].hessian_sum as f64 / tot * my_pd(t, *c, f, v, missing)).sum()
}
pub fn p14(r: &mut Rng) -> R {
    let (mut s, t) = contrib_case(r, &|_| {})?;
    s.b.parallel = r.chance(50);
    let bad = used(&s.b).iter().any(|t| t.nodes.iter().any(|n| !n.is_leaf && (n.hessian_sum < 1e-3 || n.weight_value.abs() > 1e4)));
    if bad {
        return Ok(());
    }
    for i in 0..t.rows.min(6) {
        for f in 0..t.cols {
            let v = t.at(i, f);
            let e: f64 = s.b.base_score + used(&s.b).iter().map(|x| my_pd(x, 0, f, v, t.missing)).sum::<f64>();
            let g = s.b.value_partial_dependence(f, v);
            req!(close(g, e, 1e-3) || e.is_nan(), "partial dependence of feature {} at {}: {} expected {}", f, v, g, e);
        }
        // a feature the model never uses
        let g = s.b.value_partial_dependence(t.cols + 3, 1.0);
        let e: f64 = s.b.base_score + used(&s.b).iter().map(|x| my_pd(x, 0, t.cols + 3, 1.0, t.missing)).sum::<f64>();
        req!(close(g, e, 1e-3) || e.is_nan(), "partial dependence of an unused feature: {} expected {}", g, e);
    }
    Ok(())
}
pub fn p15(r: &mut Rng) -> R {
    let s = scn(r, &nothing)?;
    all_struct(&s.b)?;
    let mut st: HashMap<usize, (f64, f64, f64)> = HashMap::new();
    for t in &s.b.trees {
        for n in &t.nodes {
            if !n.is_leaf {
                let e = st.entry(n.split_feature).or_insert((0.0, 0.0, 0.0));
                e.0 += 1.0;
                e.1 += n.split_gain as f64;
                e.2 += n.hessian_sum as f64;
            }
        }
    }
    for k in 0..5 {
        let me = |k: i32| match k {
            0 => ImportanceMethod::Weight,
            1 => ImportanceMethod::Gain,
            2 => ImportanceMethod::Cover,
            3 => ImportanceMethod::TotalGain,
            _ => ImportanceMethod::TotalCover,
        };
        let want = |v: &(f64, f64, f64)| match k {
            0 => v.0,
            1 => v.1 / v.0,
            2 => v.2 / v.0,
            3 => v.1,
            _ => v.2,
        };
        let raw = s.b.calculate_feature_importance(me(k), false);
        let nor = s.b.calculate_feature_importance(me(k), true);
        req!(raw.len() == st.len() && nor.len() == st.len(), "importance {} reports {} features, {} are used", k, raw.len(), st.len());
        let tot: f64 = st.values().map(want).sum();
        for (f, v) in &st {
            let g = *raw.get(f).ok_or(format!("feature {} has no importance", f))? as f64;
            req!(close(g, want(v), 1e-4), "importance {} of feature {}: {} expected {}", k, f, g, want(v));
            let g = *nor.get(f).ok_or(format!("feature {} has no importance", f))? as f64;
            req!(tot.abs() < 1e-3 || close(g, want(v) / tot, 1e-4), "normalised importance {} of feature {}: {} expected {}", k, f, g, want(v) / tot);
        }
    }
    Ok(())
}
fn my_metric(mt: u8, log: bool, y: &[f64], p: &[f64], w: &[f64]) -> f64 {
    let k = if mt == 0 { if log { 2 } else { 3 } } else { mt };
    let ws: f64 = w.iter().sum();
    match k {
        1 => my_auc(y, p, w),
        2 => {
            y.iter()
                .zip(p)
                .zip(w)
                .map(|((y, p), w)| {
                    let p = sig(*p);
                    -(y * p.ln() + (1.0 - y) * (1.0 - p).ln()) * w
                })
                .sum::<f64>()
                / ws
        }
        3 => (y.iter().zip(p).zip(w).map(|((y, p), w)| (y.ln_1p() - p.ln_1p()).powi(2) * w).sum::<f64>() / ws).sqrt(),
        _ => (y.iter().zip(p).zip(w).map(|((y, p), w)| (y - p).powi(2) * w).sum::<f64>() / ws).sqrt(),
    }
}
fn my_auc(y: &[f64], p: &[f64], w: &[f64]) -> f64 {
    let (mut num, mut pos, mut neg) = (0.0, 0.0, 0.0);
    for i in 0..y.len() {
        pos += y[i] * w[i];
        neg += (1.0 - y[i]) * w[i];
        for j in 0..y.len() {
            let c = y[i] * w[i] * (1.0 - y[j]) * w[j];
            if c != 0.0 {
                num += c * if p[i] > p[j] {
                    1.0
                } else if p[i] == p[j] {
                    0.5
                } else {
                    0.0
                };
            }
        }
    }
    if pos <= 0.0 || neg <= 0.0 {
        return f64::NAN;
    }
    num / (pos * neg)
}
pub fn p16(r: &mut Rng) -> R {
    // comparison of two metric values
    let pool = [f64::NAN, 0.0, 1.0, -1.0, 0.5, f64::INFINITY, f64::NEG_INFINITY, 1e-300];
    let (a, b, mx) = (r.pick(&pool), r.pick(&pool), r.chance(50));
    let e = if b.is_nan() { false } else if a.is_nan() { true } else if mx { b > a } else { b < a };
    req!(is_comparison_better(a, b, mx) == e, "is_comparison_better({}, {}, maximize {}) = {}", a, b, mx, !e);
    let s = scn(r, &|r, b| {
        if r.chance(80) {
            b.early = Some(r.range(0, 4));
        }
        b.iterations = r.range(1, 15);
        b.pm.lr = r.pick(&[0.3f32, 1.0, 1.0]);
        if r.chance(50) {
            b.pm.max_depth = 2;
        }
    })?;
    all_struct(&s.b)?;
    let nt = s.b.trees.len();
    if s.evals.is_empty() {
        req!(s.b.evaluation_history.is_none() && s.b.best_iteration.is_none() && s.b.prediction_iteration.is_none() && nt == s.bp.iterations, "no evaluation data, but history/best iteration set or {} trees of {}", nt, s.bp.iterations);
        return Ok(());
    }
    let hist = s.b.evaluation_history.as_ref().ok_or("no evaluation history")?;
    req!(hist.rows == nt && hist.cols == s.evals.len() && hist.data.len() == nt * s.evals.len(), "history {} x {} for {} trees and {} sets", hist.rows, hist.cols, nt, s.evals.len());
    let maximize = s.bp.metric == 1;
    for (k, (d, y, w)) in s.evals.iter().enumerate() {
        let mut yh = vec![s.b.base_score; d.rows];
        for t in 0..nt {
            for i in 0..d.rows {
                let tr = &s.b.trees[t];
                yh[i] += tr.nodes[leaf_of(tr, &d.row(i), d.missing)].weight_value as f64;
            }
            let e = my_metric(s.bp.metric, s.bp.log, y, &yh, w);
            let g = *hist.get(t, k);
            if !(e.is_infinite() || e.abs() > 1e12) {
                req!(close(g, e, 1e-8), "history of set {} at iteration {}: {} expected {}", k, t, g, e);
            }
        }
    }
    match s.bp.early {
        None => {
            req!(nt == s.bp.iterations && s.b.best_iteration.is_none() && s.b.prediction_iteration.is_none(), "no early stopping asked for, {} of {} trees, best {:?}", nt, s.bp.iterations, s.b.best_iteration);
        }
        Some(k) => {
            let last = s.evals.len() - 1;
            let mut best = 0usize;
            let mut bv = *hist.get(0, last);
            let mut stop = None;
            for t in 1..nt {
                let m = *hist.get(t, last);
                if stop.is_some() {
                    return Err(format!("training went on after iteration {:?}", stop));
                }
                let better = if m.is_nan() { false } else if bv.is_nan() { true } else if maximize { m > bv } else { m < bv };
                if better {
                    best = t;
                    bv = m;
                } else if t - best >= k {
                    stop = Some(t);
                }
            }
            req!(s.b.best_iteration == Some(best), "best iteration {:?} but the history {:?} says {}", s.b.best_iteration, hist.data, best);
            req!(s.b.prediction_iteration == Some(best + 1), "prediction iteration {:?} best {}", s.b.prediction_iteration, best);
            if stop.is_none() {
                req!(nt == s.bp.iterations, "stopped after {} of {} iterations without reason (rounds {})", nt, s.bp.iterations, k);
            }
            let row = s.ds.row(0);
            let p = s.b.predict(&Matrix::new(&row, 1, s.ds.cols), false)[0];
            let e = my_pred(&s.b.trees[..best + 1], s.b.base_score, &row, s.ds.missing);
            req!(close(p, e, 1e-12), "prediction {} but the trees up to the best iteration give {}", p, e);
        }
    }
    Ok(())
}
pub fn p17(r: &mut Rng) -> R {
    let n = if r.chance(3) { 20_000 } else { gen_rows(r) };
    let g0: Vec<f32> = (0..n).map(|_| r.below(81) as f32 / 8.0 - 5.0).collect();
    let h0: Vec<f32> = (0..n).map(|_| r.below(17) as f32 / 8.0 + 0.125).collect();
    let ix: Vec<usize> = (0..n).collect();
    let seed = r.next();
    let sub = r.pick(&[0.0f32, 0.1, 0.5, 0.9, 1.0]);
    let (mut g, mut h) = (g0.clone(), h0.clone());
    ctx(format!("samplers: {} rows, seed {}, subsample {}", n, seed, sub));
    let (c, x) = RandomSampler::new(sub).sample(&mut StdRng::seed_from_u64(seed), &ix, &mut g, &mut h);
    req!(g == g0 && h == h0, "random sampling changed gradients");
    let mut all: Vec<usize> = c.iter().chain(x.iter()).copied().collect();
    all.sort();
    req!(all == ix, "chosen and excluded rows are not a partition");
    req!(sub < 1.0 || c.len() == n, "subsample 1 left out {} rows", n - c.len());
    req!(sub > 0.0 || c.is_empty(), "subsample 0 chose {} rows", c.len());
    if n >= 10_000 {
        let d = (c.len() as f64 / n as f64 - sub as f64).abs();
        req!(d < 0.03, "subsample {} chose {} of {}", sub, c.len(), n);
    }
    let c2 = RandomSampler::new(sub).sample(&mut StdRng::seed_from_u64(seed), &ix, &mut g, &mut h).0;
    req!(c == c2, "same seed, different sample");
    // gradient based one-side sampling
    let a = r.pick(&[0.0, 0.1, 0.25, 0.5]);
    let b = r.pick(&[0.1, 0.25, 0.5]);
    let (mut g, mut h) = (g0.clone(), h0.clone());
    ctx(format!("goss top_rate {} other_rate {} grad {:?}", a, b, &g0[..n.min(3000)]));
    let (c, _) = GossSampler::new(a, b).sample(&mut StdRng::seed_from_u64(seed), &ix, &mut g, &mut h);
    let mut u = c.clone();
    u.sort();
    u.dedup();
    req!(u.len() == c.len() && u.iter().all(|i| *i < n), "goss chose a row twice or out of range");
    let top = (a * n as f64) as usize;
    let fact = ((1.0 - a) / b) as f32;
    let mut abs: Vec<f32> = g0.iter().map(|v| v.abs()).collect();
    abs.sort_by(|x, y| y.total_cmp(x));
    let mut kept = 0;
    for i in 0..n {
        let sel = u.binary_search(&i).is_ok();
        let same = g[i] == g0[i] && h[i] == h0[i];
        let scaled = g[i] == g0[i] * fact && h[i] == h0[i] * fact;
        if !sel {
            req!(same, "goss changed row {} which it did not choose", i);
            req!(top == 0 || g0[i].abs() <= abs[top - 1], "goss left out row {} with a gradient {} among the {} largest", i, g0[i], top);
        } else {
            if top > 0 && g0[i].abs() > abs[top - 1] || top < n && g0[i].abs() >= abs[top.max(1) - 1] && top > 0 && abs[top - 1] > abs[top] {
                req!(same, "goss reweighted row {} among the {} largest gradients", i, top);
            }
            if top == 0 || g0[i].abs() < abs[top - 1] {
                req!(scaled, "goss sampled row {} with gradient {} hessian {} not scaled by {}: {} {}", i, g0[i], h0[i], fact, g[i], h[i]);
            }
            req!(same || scaled, "goss row {}: ({}, {}) became ({}, {})", i, g0[i], h0[i], g[i], h[i]);
            if same && !(fact == 1.0) {
                kept += 1;
            }
        }
    }
    req!(fact == 1.0 || kept <= top, "goss kept {} rows unscaled, top {}", kept, top);
    req!(c.len() >= top, "goss chose {} rows, top {}", c.len(), top);
    if n >= 10_000 {
        let e = top as f64 + (b * n as f64).floor();
        req!((c.len() as f64 - e).abs() < 0.03 * n as f64, "goss chose {} rows, expected about {}", c.len(), e);
    }
    // column sampling
    if r.chance(40) {
        let s = scn(r, &|r, b| {
            b.colsample = r.pick(&[0.2, 0.5, 0.75]);
            b.iterations = b.iterations.max(1);
        })?;
        let amount = (s.ds.cols as f64 * s.bp.colsample).floor() as usize;
        for t in &s.b.trees {
            let mut f: Vec<usize> = t.nodes.iter().filter(|n| !n.is_leaf).map(|n| n.split_feature).collect();
            f.sort();
            f.dedup();
            req!(f.len() <= amount && f.iter().all(|x| *x < s.ds.cols), "tree uses features {:?}, {} were to be sampled", f, amount);
        }
    }
    Ok(())
}
pub fn p18(r: &mut Rng) -> R {
    let n = r.range(1, 40);
    let log = r.chance(50);
    let y: Vec<f64> = (0..n).map(|_| if log { if r.chance(80) { r.below(2) as f64 } else { r.unit() } } else { r.below(100) as f64 / 8.0 - 6.0 }).collect();
    let far = r.chance(30);
    let yh: Vec<f64> = (0..n).map(|_| if far { r.below(81) as f64 / 2.0 - 20.0 } else { r.below(161) as f64 / 16.0 - 5.0 }).collect();
    let w = gen_weights(r, n);
    ctx(format!("objective log {} y {:?} yhat {:?} w {:?}", log, y, yh, w));
    let o = if log { ObjectiveType::LogLoss } else { ObjectiveType::SquaredLoss };
    let (g, h) = gradient_hessian_callables(&o)(&y, &yh, &w);
    req!(g.len() == n && h.len() == n, "{} gradients {} hessians for {} rows", g.len(), h.len(), n);
    let loss = |yh: &[f64]| if log { LogLoss::calc_loss(&y, yh, &w) } else { SquaredLoss::calc_loss(&y, yh, &w) };
    let l0 = loss(&yh);
    for i in 0..n {
        let (eg, eh) = my_gh(log, y[i], yh[i], w[i]);
        req!(close(g[i] as f64, eg, 1e-5), "row {}: gradient {} expected {}", i, g[i], eg);
        req!(close(h[i] as f64, eh, 1e-5) && h[i] >= 0.0, "row {}: hessian {} expected {}", i, h[i], eh);
        req!((h[i] as f64 - eh).abs() <= 1e-4 * eh, "row {}: hessian {} expected {}", i, h[i], eh);
        let el = if log {
            let p = sig(yh[i]);
            -(y[i] * p.ln() + (1.0 - y[i]) * (1.0 - p).ln()) * w[i]
        } else {
            (y[i] - yh[i]).powi(2) * w[i]
        };
        req!(close(l0[i] as f64, el, 1e-3), "row {}: loss {} expected {}", i, l0[i], el);
    }
    let ws: f64 = w.iter().sum();
    let ym: f64 = y.iter().zip(&w).map(|(a, b)| a * b).sum::<f64>() / ws;
    if !log || (ym > 1e-9 && ym < 1.0 - 1e-9) {
        let init = calc_init_callables(&o)(&y, &w);
        let e = if log { (ym / (1.0 - ym)).ln() } else { ym };
        req!(close(init, e, 1e-9), "initial score {} expected {}", init, e);
        let (g, _) = gradient_hessian_callables(&o)(&y, &vec![init; n], &w);
        let t: f64 = g.iter().map(|v| *v as f64).sum();
        req!(t.abs() < 1e-4 * (1.0 + ws), "gradients at the initial score sum to {}", t);
        // and through training
        if r.chance(30) && n >= 2 {
            let data: Vec<f64> = (0..n).map(|i| i as f64).collect();
            let mut b = GradientBooster::default();
            b.objective_type = if log { ObjectiveType::LogLoss } else { ObjectiveType::SquaredLoss };
            b.iterations = 1;
            b.initialize_base_score = r.chance(70);
            b.base_score = 0.25;
            b.max_depth = 0;
            b.learning_rate = 1.0;
            b.fit(&Matrix::new(&data, n, 1), &y, &w, None).map_err(|e| e.to_string())?;
            let eb = if b.initialize_base_score { e } else { 0.25 };
            req!(close(b.base_score, eb, 1e-9), "base score after training {} expected {}", b.base_score, eb);
            let (mut sg, mut sh) = (0.0, 0.0);
            for i in 0..n {
                let (g, h) = my_gh(log, y[i], eb, w[i]);
                sg += g;
                sh += h;
            }
            let ew = -sg / (sh + 1.0);
            req!(close(b.trees[0].nodes[0].weight_value as f64, ew, 1e-4), "single leaf weight {} expected {}", b.trees[0].nodes[0].weight_value, ew);
        }
    }
    Ok(())
}
pub fn p19(r: &mut Rng) -> R {
    let n = r.range(1, 50);
    let y: Vec<f64> = (0..n).map(|_| r.below(2) as f64).collect();
    let k = r.range(1, 30);
    // scores of any magnitude: only their order matters to the area under the curve
    let scale = r.pick(&[1.0, 1.0, 1.0, 1e-3, 1e-8, 1e-17, 1e-40, 1e-300, 10.0]);
    let off = if r.chance(10) { 0.5 } else { 0.0 };
    let yh: Vec<f64> = (0..n)
        .map(|_| {
            if off != 0.0 {
                off + r.below(k) as f64 * f64::EPSILON / 2.0
            } else if r.chance(5) {
                r.pick(&[0.0, -0.0])
            } else {
                (r.below(k) as f64 / 8.0 - 0.75) * scale
            }
        })
        .collect();
    let w = gen_weights(r, n);
    ctx(format!("metrics y {:?} yhat {:?} w {:?}", y, yh, w));
    for m in 1..=4u8 {
        let (f, mx) = metric_callables(&metric_of(m).unwrap());
        if m == 3 && yh.iter().any(|v| *v <= -1.0) {
            continue;
        }
        let e = my_metric(m, true, &y, &yh, &w);
        let g = f(&y, &yh, &w);
        req!(close(g, e, 1e-8), "metric {:?}: {} expected {}", metric_of(m), g, e);
        req!(mx == (m == 1), "metric {:?}: maximize {}", metric_of(m), mx);
        if m == 1 && !g.is_nan() {
            req!((0.0 - 1e-9..=1.0 + 1e-9).contains(&g), "AUC {}", g);
        }
    }
    let yr: Vec<f64> = (0..n).map(|_| r.below(50) as f64 / 4.0).collect();
    let pr: Vec<f64> = (0..n).map(|_| r.below(50) as f64 / 4.0).collect();
    for m in 3..=4u8 {
        let (f, _) = metric_callables(&metric_of(m).unwrap());
        let (g, e) = (f(&yr, &pr, &w), my_metric(m, false, &yr, &pr, &w));
        req!(close(g, e, 1e-8), "metric {:?}: {} expected {} on {:?} {:?}", metric_of(m), g, e, yr, pr);
    }
    Ok(())
}
pub fn p20(r: &mut Rng) -> R {
    let mut s = scn(r, &|_, b| b.iterations = b.iterations.min(3))?;
    let before = s.b.json_dump().map_err(|e| e.to_string())?;
    let m = Matrix::new(&s.ds.data, s.ds.rows, s.ds.cols);
    let (mut y, mut w) = (s.y.clone(), s.w.clone());
    let mut ev: Vec<(Ds, Vec<f64>, Vec<f64>)> = s.evals.clone();
    if ev.is_empty() {
        ev.push((s.ds.clone(), s.y.clone(), s.w.clone()));
    }
    let k = r.below(7);
    let e = r.below(ev.len());
    let i = r.below(y.len());
    let ei = r.below(ev[e].1.len());
    let neg = r.pick(&[-1.0, -1e-300, f64::NEG_INFINITY, -0.5]);
    match k {
        0 => y[i] = f64::NAN,
        1 => w[i] = neg,
        2 => w[i] = f64::NAN,
        3 => ev[e].1[ei] = f64::NAN,
        4 => ev[e].2[ei] = neg,
        5 => ev[e].2[ei] = f64::NAN,
        _ => {
            w[i] = f64::NAN;
            y[0] = f64::NAN;
        }
    }
    ctx(format!("invalid input kind {} y {:?} w {:?} eval {:?}", k, y, w, ev));
    let evals = Some(ev.iter().map(|(e, y, w)| (Matrix::new(&e.data, e.rows, e.cols), y.as_slice(), w.as_slice())).collect::<Vec<_>>());
    let res = s.b.fit(&m, &y, &w, evals);
    req!(res.is_err(), "invalid input (kind {}) was accepted", k);
    let after = s.b.json_dump().map_err(|e| e.to_string())?;
    req!(before == after, "rejected input changed the model");
    // parameters
    let bad = r.pick(&[-1.0, f64::NAN, -1e-30, f64::NEG_INFINITY]);
    let good = r.pick(&[0.0, 1.0, 0.3, f64::INFINITY, 1e30]);
    let which = r.below(11);
    let v = |k: usize| if k == which { bad } else if r.0 % 3 == 0 { good } else { 0.5 };
    let nb = GradientBooster::new(
        ObjectiveType::LogLoss, 1, v(0) as f32, 3, 10, v(1) as f32, v(2) as f32, v(3) as f32, v(4) as f32, v(5) as f32, 0.5, 16, false, true, None, v(6) as f32, v(7), v(8), v(9), 0, f64::NAN, false,
        SampleMethod::None, forust_ml::gradientbooster::GrowPolicy::DepthWise, None, None, false, Default::default(), forust_ml::gradientbooster::MissingNodeTreatment::None, 0, false,
    );
    if which < 10 {
        req!(nb.is_err(), "parameter {} = {} was accepted", which, bad);
    } else {
        req!(nb.is_ok(), "valid parameters (with {}) were rejected", good);
    }
    Ok(())
}
fn dump(b: &GradientBooster) -> serde_json::Value {
    let mut v: serde_json::Value = serde_json::from_str(&b.json_dump().unwrap()).unwrap();
    // set-valued fields serialise in arbitrary order
    let o = v.as_object_mut().unwrap();
    o.remove("parallel");
    o.remove("terminate_missing_features");
    o.remove("monotone_constraints");
    v
}
pub fn p21(r: &mut Rng) -> R {
    let s = scn(r, &nothing)?;
    let one = dump(&s.b);
    // the same again, on a fresh booster, with the other parallel setting
    let mut b = s.bp.build(s.ds.missing);
    b.parallel = !b.parallel;
    fit_scn(&s, &mut b)?;
    req!(dump(&b) == one, "training with parallel={} gave another model", b.parallel);
    // a booster already trained on something else
    let t = scn_inputs(r, &|_, b| b.iterations = b.iterations.max(1));
    let mut b = s.bp.build(s.ds.missing);
    {
        let (i, e, bs, ib, mi) = (b.iterations, b.early_stopping_rounds, b.base_score, b.initialize_base_score, b.missing);
        let ob = std::mem::replace(&mut b.objective_type, t.bp.obj());
        b.iterations = t.bp.iterations;
        b.early_stopping_rounds = t.bp.early;
        b.missing = t.ds.missing;
        let l2 = b.l2;
        b.l2 = b.l2.max(0.25);
        let cols_ok = true;
        if cols_ok {
            fit_scn(&t, &mut b)?;
        }
        b.l2 = l2;
        b.objective_type = ob;
        b.iterations = i;
        b.early_stopping_rounds = e;
        b.missing = mi;
        b.initialize_base_score = ib;
        b.base_score = bs;
    }
    fit_scn(&s, &mut b)?;
    req!(dump(&b) == one, "training a used booster gave another model than a fresh one");
    Ok(())
}
pub fn p22(r: &mut Rng) -> R {
    let (rows, cols) = (r.range(1, 30), r.range(1, 8));
    let data: Vec<u32> = (0..rows * cols).map(|_| r.next() as u32).collect();
    let m = Matrix::new(&data, rows, cols);
    ctx(format!("matrix {} x {} {:?}", rows, cols, data));
    req!(m.rows == rows && m.cols == cols && m.index == (0..rows).collect::<Vec<_>>(), "matrix shape");
    for i in 0..rows {
        let row = m.get_row(i);
        req!(row.len() == cols, "row {} has {} values", i, row.len());
        for j in 0..cols {
            let e = data[j * rows + i];
            req!(*m.get(i, j) == e && row[j] == e && m.get_col(j)[i] == e, "item ({}, {})", i, j);
        }
    }
    for j in 0..cols {
        req!(m.get_col(j).len() == rows, "column {} has {} values", j, m.get_col(j).len());
        let (a, b) = (r.below(rows + 1), r.below(rows + 1));
        let (a, b) = (a.min(b), a.max(b));
        req!(m.get_col_slice(j, a, b) == &data[j * rows + a..j * rows + b], "column slice {} {}..{}", j, a, b);
    }
    let vecs: Vec<Vec<u32>> = (0..r.below(6)).map(|_| (0..r.below(5)).map(|_| r.next() as u32).collect()).collect();
    let mut jm = JaggedMatrix::from_vecs(&vecs);
    req!(jm.cols == vecs.len(), "jagged columns");
    for (j, v) in vecs.iter().enumerate() {
        req!(jm.get_col(j) == &v[..], "jagged column {}: {:?} expected {:?}", j, jm.get_col(j), v);
        req!(jm.get_col_mut(j) == &v[..], "jagged column (mutable) {}", j);
    }
    let mut rm = RowMajorMatrix::new(Vec::new(), 0, cols);
    let mut all: Vec<u32> = Vec::new();
    for _ in 0..r.below(5) {
        let k = r.range(1, 3);
        let items: Vec<u32> = (0..k * cols).map(|_| r.next() as u32).collect();
        all.extend(items.iter());
        rm.append_row(items);
    }
    req!(rm.rows * cols == all.len() && rm.data == all, "appended rows {} of {}", rm.rows, all.len());
    for i in 0..rm.rows {
        for j in 0..cols {
            req!(*rm.get(i, j) == all[i * cols + j], "row major item ({}, {})", i, j);
        }
    }
    Ok(())
}
pub fn p23(r: &mut Rng) -> R {
    let n = gen_rows(r).min(300);
    let k = r.range(1, 20);
    let v: Vec<f64> = (0..n).map(|_| r.below(k) as f64 - 3.5).collect();
    // integer weights padded so that the total is a power of two: every cumulative share is exact
    let wk = r.below(3);
    let mut w: Vec<f64> = (0..n).map(|_| match wk { 0 => 1.0, 1 => r.range(1, 5) as f64, _ => r.below(4) as f64 }).collect();
    let mut p2 = 1.0;
    while p2 < w.iter().sum::<f64>() {
        p2 *= 2.0;
    }
    let i = r.below(n);
    w[i] += p2 - w.iter().sum::<f64>();
    let np = r.range(1, 12);
    let mut p: Vec<f64> = if r.chance(50) { (0..np).map(|i| i as f64 / np as f64).collect() } else { (0..np).map(|_| r.below(65) as f64 / 64.0).collect() };
    p.sort_by(|a, b| a.total_cmp(b));
    ctx(format!("percentiles of {:?} weights {:?} at {:?}", v, w, p));
    let got = percentiles(&v, &w, &p);
    req!(got.len() == p.len(), "{} percentiles for {} asked", got.len(), p.len());
    let mut u = v.clone();
    u.sort_by(|a, b| a.total_cmp(b));
    u.dedup();
    for (q, g) in p.iter().zip(&got) {
        if *q == 0.0 {
            req!(*g == u[0], "percentile 0 is {} not the minimum {}", g, u[0]);
            continue;
        }
        let e = u.iter().find(|x| v.iter().zip(&w).filter(|(a, _)| *a <= *x).map(|(_, b)| b).sum::<f64>() / p2 >= *q).unwrap();
        req!(g == e, "percentile {} is {} expected {}", q, g, e);
    }
    Ok(())
}
