//! Deterministic generators shared by every falsifier.
use forust_ml::constraints::{Constraint, ConstraintMap};
use forust_ml::gradientbooster::{GrowPolicy, MissingNodeTreatment};
use forust_ml::metric::Metric;
use forust_ml::objective::ObjectiveType;
use forust_ml::sampler::SampleMethod;
use forust_ml::GradientBooster;
use std::cell::RefCell;
use std::collections::HashSet;

pub type R = Result<(), String>;

thread_local! { pub static CTX: RefCell<String> = RefCell::new(String::new()); }
/// Describe the concrete input of the case being run (goes to the replay file).
pub fn ctx(s: String) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() < 200_000 {
            c.push_str(&s);
            c.push('\n');
        }
    })
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Ds {
    pub rows: usize,
    pub cols: usize,
    /// column major
    pub data: Vec<f64>,
    pub missing: f64,
}
impl Ds {
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.data[j * self.rows + i]
    }
    pub fn row(&self, i: usize) -> Vec<f64> {
        (0..self.cols).map(|j| self.at(i, j)).collect()
    }
    pub fn is_miss(&self, v: f64) -> bool {
        is_miss(v, self.missing)
    }
}
pub fn is_miss(v: f64, missing: f64) -> bool {
    if missing.is_nan() {
        v.is_nan()
    } else {
        v == missing
    }
}

pub fn gen_missing(r: &mut Rng) -> f64 {
    match r.below(10) {
        0..=5 => f64::NAN,
        6 => -999.0,
        7 => 0.0,
        8 => 1.0,
        _ => 3.5,
    }
}

/// A column of values; `missing` marks missing entries.
pub fn gen_col(r: &mut Rng, rows: usize, missing: f64) -> Vec<f64> {
    let kind = r.below(14);
    let miss_pct = r.pick(&[0usize, 0, 0, 10, 30, 60, 95, 100]);
    let k = r.range(1, 12);
    (0..rows)
        .map(|i| {
            if r.chance(miss_pct) {
                return missing;
            }
            let v = match kind {
                0 => 7.0,
                1 => r.below(2) as f64,
                2 | 3 | 4 | 5 => r.below(k) as f64 - (k / 2) as f64,
                6 => (r.below(64) as f64 - 32.0) / 8.0,
                7 => r.unit() * 100.0 - 50.0,
                8 => i as f64,
                9 => (rows - i) as f64 * 0.5,
                10 => (r.below(9) as f64 - 4.0) * 1e300 / 8.0,
                11 => 1.0 + r.below(5) as f64 * f64::EPSILON,
                12 => r.pick(&[-0.0, 0.0, 5e-324, -5e-324, 1e-310, 2.5, f64::MIN, 1e308]),
                _ => (r.unit() - 0.5) * 1e-3,
            };
            if !missing.is_nan() && v == missing && r.chance(50) {
                return v + 0.25;
            }
            v
        })
        .collect()
}

pub fn gen_rows(r: &mut Rng) -> usize {
    match r.below(100) {
        0..=4 => r.range(1, 3),
        5..=69 => r.range(4, 40),
        70..=93 => r.range(41, 120),
        94..=98 => r.range(121, 400),
        _ => r.range(1000, 2500),
    }
}

pub fn gen_ds(r: &mut Rng, rows: usize) -> Ds {
    let cols = match r.below(20) {
        0 => r.range(6, 20),
        _ => r.range(1, 5),
    };
    let missing = gen_missing(r);
    let mut data = Vec::new();
    for j in 0..cols {
        if j > 0 && r.chance(10) {
            let s = r.below(j);
            let c: Vec<f64> = data[s * rows..(s + 1) * rows].to_vec();
            data.extend(c);
        } else {
            data.extend(gen_col(r, rows, missing));
        }
    }
    Ds { rows, cols, data, missing }
}

/// new rows to predict on: values of the training data, the split points themselves, neighbours, unseen
pub fn gen_like(r: &mut Rng, ds: &Ds, rows: usize, cuts: &[Vec<f64>]) -> Ds {
    let mut data = Vec::with_capacity(rows * ds.cols);
    for j in 0..ds.cols {
        for _ in 0..rows {
            let v = match r.below(10) {
                0 => ds.missing,
                1..=4 => ds.at(r.below(ds.rows), j),
                5 | 6 if !cuts[j].is_empty() => r.pick(&cuts[j]),
                7 if !cuts[j].is_empty() => {
                    let c = r.pick(&cuts[j]);
                    c - c.abs() * 1e-9 - 1e-9
                }
                8 => (r.unit() - 0.5) * 1e6,
                _ => r.pick(&[f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e300, -1e300]),
            };
            data.push(if v.is_nan() { ds.missing } else { v });
        }
    }
    Ds { rows, cols: ds.cols, data, missing: ds.missing }
}

pub fn tree_cuts(b: &GradientBooster, cols: usize) -> Vec<Vec<f64>> {
    let mut c = vec![Vec::new(); cols];
    for t in &b.trees {
        for n in &t.nodes {
            if !n.is_leaf && n.split_feature < cols {
                c[n.split_feature].push(n.split_value);
            }
        }
    }
    c
}

pub fn gen_weights(r: &mut Rng, n: usize) -> Vec<f64> {
    let kind = r.below(6);
    let mut w: Vec<f64> = (0..n)
        .map(|_| match kind {
            0 | 1 | 2 => 1.0,
            3 => r.range(1, 4) as f64,
            4 => r.below(3) as f64,
            _ => r.range(1, 16) as f64 / 4.0,
        })
        .collect();
    if w.iter().sum::<f64>() <= 0.0 {
        w[0] = 1.0;
    }
    w
}

pub fn objective(r: &mut Rng) -> ObjectiveType {
    if r.chance(50) {
        ObjectiveType::LogLoss
    } else {
        ObjectiveType::SquaredLoss
    }
}
pub fn is_log(o: &ObjectiveType) -> bool {
    matches!(o, ObjectiveType::LogLoss)
}
pub fn gen_y(r: &mut Rng, n: usize, o: &ObjectiveType, w: &mut [f64], ds: &Ds) -> Vec<f64> {
    let noise = r.range(0, 60);
    let c = r.below(ds.cols);
    let med = {
        let v: Vec<f64> = (0..n).map(|i| ds.at(i, c)).filter(|v| !ds.is_miss(*v)).collect();
        if v.is_empty() { 0.0 } else { v[r.below(v.len())] }
    };
    let mut y: Vec<f64> = (0..n)
        .map(|i| {
            let v = ds.at(i, c);
            let s = if r.chance(noise) { r.chance(50) } else { v > med };
            if is_log(o) {
                s as u8 as f64
            } else {
                (if s { 4.0 } else { 0.0 }) + r.below(16) as f64 / 8.0
            }
        })
        .collect();
    if is_log(o) && n >= 2 {
        y[0] = 1.0;
        y[n - 1] = 0.0;
        if w[0] <= 0.0 {
            w[0] = 1.0;
        }
        if w[n - 1] <= 0.0 {
            w[n - 1] = 1.0;
        }
    }
    y
}

#[derive(Clone, Debug)]
pub struct Pm {
    pub l1: f32,
    pub l2: f32,
    pub gamma: f32,
    pub mds: f32,
    pub mlw: f32,
    pub lr: f32,
    pub max_depth: usize,
    pub max_leaves: usize,
    pub nbins: u16,
    pub parallel: bool,
    pub ams: bool,
    pub cmb: bool,
    pub force: bool,
    pub treat: u8,
    pub lossguide: bool,
    pub cons: Vec<(usize, u8)>,
    pub term: Vec<usize>,
}
pub fn gen_pm(r: &mut Rng, cols: usize) -> Pm {
    let l2 = r.pick(&[0.0f32, 0.25, 0.5, 1.0, 1.0, 1.0, 4.0]);
    let mut mlw = r.pick(&[0.0f32, 0.25, 0.5, 1.0, 1.0, 2.0, 5.0]);
    if l2 == 0.0 && mlw < 0.5 {
        mlw = 0.5;
    }
    let mut cons = Vec::new();
    if r.chance(50) {
        for f in 0..cols {
            if r.chance(60) {
                cons.push((f, r.below(3) as u8));
            }
        }
    }
    let mut term = Vec::new();
    for f in 0..cols {
        if r.chance(25) {
            term.push(f);
        }
    }
    Pm {
        l1: r.pick(&[0.0f32, 0.0, 0.0, 0.5, 2.0]),
        l2,
        gamma: r.pick(&[0.0f32, 0.0, 0.0, 0.125, 1.0]),
        mds: r.pick(&[0.0f32, 0.0, 0.0, 0.25, 1.0]),
        mlw,
        lr: r.pick(&[0.1f32, 0.25, 0.3, 0.5, 1.0]),
        max_depth: r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 10]),
        max_leaves: r.pick(&[1usize, 2, 3, 4, 5, 6, 8, 31, usize::MAX, usize::MAX, usize::MAX, usize::MAX, usize::MAX]),
        nbins: r.pick(&[1u16, 2, 3, 4, 7, 16, 64, 256]),
        parallel: r.chance(50),
        ams: r.chance(50),
        cmb: r.chance(50),
        force: r.chance(30),
        treat: r.below(4) as u8,
        lossguide: r.chance(40),
        cons,
        term,
    }
}
impl Pm {
    pub fn treatment(&self) -> MissingNodeTreatment {
        match self.treat {
            0 => MissingNodeTreatment::None,
            1 => MissingNodeTreatment::AssignToParent,
            2 => MissingNodeTreatment::AverageLeafWeight,
            _ => MissingNodeTreatment::AverageNodeWeight,
        }
    }
    pub fn policy(&self) -> GrowPolicy {
        if self.lossguide {
            GrowPolicy::LossGuide
        } else {
            GrowPolicy::DepthWise
        }
    }
    pub fn cmap(&self) -> ConstraintMap {
        self.cons
            .iter()
            .map(|(f, c)| {
                (
                    *f,
                    match c {
                        0 => Constraint::Positive,
                        1 => Constraint::Negative,
                        _ => Constraint::Unconstrained,
                    },
                )
            })
            .collect()
    }
    /// +1 / -1 / 0
    pub fn con(&self, f: usize) -> i32 {
        for (g, c) in &self.cons {
            if *g == f {
                return match c {
                    0 => 1,
                    1 => -1,
                    _ => 0,
                };
            }
        }
        0
    }
}

#[derive(Clone, Debug)]
pub struct Bp {
    pub pm: Pm,
    pub log: bool,
    pub iterations: usize,
    pub base_score: f64,
    pub init_base: bool,
    pub seed: u64,
    pub sample: u8,
    pub subsample: f32,
    pub top: f64,
    pub other: f64,
    pub colsample: f64,
    pub metric: u8,
    pub early: Option<usize>,
}
pub fn gen_bp(r: &mut Rng, cols: usize) -> Bp {
    let mut pm = gen_pm(r, cols);
    let log = r.chance(50);
    if pm.l2 < 0.25 {
        if log {
            pm.l2 = 0.25;
        } else {
            pm.mlw = pm.mlw.max(0.5);
        }
    }
    let sample = if r.chance(70) { 0 } else { r.range(1, 2) as u8 };
    if sample != 0 {
        pm.l2 = pm.l2.max(0.25);
    }
    Bp {
        pm,
        log,
        iterations: r.pick(&[0usize, 1, 1, 2, 3, 4, 5, 8, 12]),
        base_score: r.pick(&[0.0, 0.5, -1.0, 2.25]),
        init_base: r.chance(50),
        seed: r.below(1000) as u64,
        sample,
        subsample: r.pick(&[0.3f32, 0.5, 0.8, 1.0]),
        top: r.pick(&[0.1, 0.2, 0.3]),
        other: r.pick(&[0.1, 0.2, 0.5]),
        colsample: if r.chance(75) { 1.0 } else { r.pick(&[0.2, 0.5, 0.8]) },
        metric: match r.below(5) as u8 {
            1 if !log => 4, // AUC is only defined for binary labels
            m => m,
        },
        early: if r.chance(50) { Some(r.range(0, 3)) } else { None },
    }
}
pub fn metric_of(m: u8) -> Option<Metric> {
    match m {
        0 => None,
        1 => Some(Metric::AUC),
        2 => Some(Metric::LogLoss),
        3 => Some(Metric::RootMeanSquaredLogError),
        _ => Some(Metric::RootMeanSquaredError),
    }
}
impl Bp {
    pub fn obj(&self) -> ObjectiveType {
        if self.log {
            ObjectiveType::LogLoss
        } else {
            ObjectiveType::SquaredLoss
        }
    }
    pub fn build(&self, missing: f64) -> GradientBooster {
        let p = &self.pm;
        GradientBooster::new(
            self.obj(),
            self.iterations,
            p.lr,
            p.max_depth,
            p.max_leaves,
            p.l1,
            p.l2,
            p.gamma,
            p.mds,
            p.mlw,
            self.base_score,
            p.nbins,
            p.parallel,
            p.ams,
            Some(p.cmap()),
            self.subsample,
            self.top,
            self.other,
            self.colsample,
            self.seed,
            missing,
            p.cmb,
            match self.sample {
                0 => SampleMethod::None,
                1 => SampleMethod::Random,
                _ => SampleMethod::Goss,
            },
            p.policy(),
            metric_of(self.metric),
            self.early,
            self.init_base,
            p.term.iter().copied().collect::<HashSet<usize>>(),
            p.treatment(),
            0,
            p.force,
        )
        .expect("valid parameters")
    }
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
