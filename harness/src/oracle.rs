//! Independent oracle for one grown tree: recomputes, from the raw data, which rows reach every
//! node, the sums, the weights, the gains and every candidate split, in f64.
use crate::common::*;
use forust_ml::tree::Tree;

pub struct Tc<'a> {
    pub ds: &'a Ds,
    /// cut values per column, without the trailing f64::MAX
    pub cuts: Vec<Vec<f64>>,
    pub grad: &'a [f64],
    pub hess: &'a [f64],
    pub index: &'a [usize],
    pub cols: &'a [usize],
    pub pm: &'a Pm,
    /// all sums are exactly representable
    pub exact: bool,
}

pub fn route(tree: &Tree, row: &[f64], missing: f64) -> Vec<usize> {
    let mut p = vec![0usize];
    loop {
        let n = &tree.nodes[*p.last().unwrap()];
        if n.is_leaf || p.len() > tree.nodes.len() + 1 {
            return p;
        }
        let v = row[n.split_feature];
        p.push(if is_miss(v, missing) {
            n.missing_node
        } else if v < n.split_value {
            n.left_child
        } else {
            n.right_child
        });
    }
}
pub fn leaf_of(tree: &Tree, row: &[f64], missing: f64) -> usize {
    *route(tree, row, missing).last().unwrap()
}

pub fn check_struct(tree: &Tree, cmb: bool) -> R {
    let n = tree.nodes.len();
    if n == 0 {
        return Err("tree without nodes".into());
    }
    if tree.nodes[0].depth != 0 {
        return Err("root depth is not 0".into());
    }
    let mut parents = vec![0usize; n];
    for (i, nd) in tree.nodes.iter().enumerate() {
        if nd.num != i {
            return Err(format!("node at position {} has number {}", i, nd.num));
        }
        if nd.is_leaf {
            continue;
        }
        let mut ch = vec![nd.left_child, nd.right_child];
        if nd.left_child == nd.right_child {
            return Err(format!("node {}: both children are {}", i, nd.left_child));
        }
        if cmb {
            if nd.missing_node == nd.left_child || nd.missing_node == nd.right_child {
                return Err(format!("node {}: no separate missing branch", i));
            }
            ch.push(nd.missing_node);
        } else if nd.missing_node != nd.left_child && nd.missing_node != nd.right_child {
            return Err(format!("node {}: missing direction {} is not a child", i, nd.missing_node));
        }
        for c in ch {
            if c >= n || c <= i {
                return Err(format!("node {}: child {} out of range ({} nodes)", i, c, n));
            }
            parents[c] += 1;
            if tree.nodes[c].depth != nd.depth + 1 {
                return Err(format!("node {}: child {} has depth {} (parent {})", i, c, tree.nodes[c].depth, nd.depth));
            }
        }
    }
    for i in 1..n {
        if parents[i] != 1 {
            return Err(format!("node {} has {} parents", i, parents[i]));
        }
    }
    Ok(())
}

fn l1r(g: f64, l1: f64) -> f64 {
    if l1 == 0.0 {
        g
    } else if g > l1 {
        g - l1
    } else if g < -l1 {
        g + l1
    } else {
        0.0
    }
}
pub fn wt(pm: &Pm, g: f64, h: f64) -> f64 {
    let w = -(l1r(g, pm.l1 as f64) / (h + pm.l2 as f64));
    if pm.mds != 0.0 && w.abs() > pm.mds as f64 {
        return (pm.mds as f64).copysign(w);
    }
    w
}
fn cw(pm: &Pm, g: f64, h: f64, lo: f64, up: f64) -> f64 {
    let w = wt(pm, g, h);
    if w > up {
        up
    } else if w < lo {
        lo
    } else {
        w
    }
}
fn ggw(pm: &Pm, g: f64, h: f64, w: f64) -> f64 {
    -(2.0 * g * w + (h + pm.l2 as f64) * w * w)
}
fn bound(p: f64, l: f64, r: f64) -> (f64, f64) {
    let (mn, mx) = (l.min(r), l.max(r));
    if p >= mn && p <= mx {
        (l, r)
    } else if l > r {
        if l < p {
            (p, r)
        } else {
            (l, p)
        }
    } else if r < p {
        (l, p)
    } else {
        (p, r)
    }
}

#[derive(Clone, Debug)]
pub struct Out {
    pub dir: u8, // 0 left, 1 right, 2 separate
    pub gain: f64,
    pub lw: f64,
    pub rw: f64,
    pub mw: f64,
    pub lg: f64,
    pub rg: f64,
    pub mg: f64,
    pub scale: f64,
    /// certainly acceptable / possibly acceptable (numerical tolerance)
    pub sure: bool,
    pub ok: bool,
    pub mw_ambiguous: bool,
}

pub struct Sums {
    pub lg: f64,
    pub lh: f64,
    pub rg: f64,
    pub rh: f64,
    pub mg: f64,
    pub mh: f64,
    pub ln: usize,
    pub rn: usize,
    pub mn: usize,
    pub absg: f64,
    /// the column has missing values somewhere (rounding may leave residues in the missing bin)
    pub mcol: bool,
}

/// All outcomes the documented algorithm may give for one candidate (more than one only within tolerance).
pub fn eval(tc: &Tc, s: &Sums, lo: f64, up: f64, pw: f64, ngain: f64, con: i32) -> Vec<Out> {
    let pm = tc.pm;
    let ht = if tc.exact { 1e-9 } else { 1e-4 * (1.0 + s.lh + s.rh + s.mh) };
    let wtol = |a: f64, b: f64| if tc.exact { 2e-6 } else { 1e-3 } * (1.0 + a.abs().max(b.abs()));
    let mlw = pm.mlw as f64;
    let lempty = if tc.exact { s.lg == 0.0 && s.lh == 0.0 } else { s.ln == 0 || (s.lh.abs() < 1e-5 && s.lg.abs() < 1e-4) };
    let rempty = if tc.exact { s.rg == 0.0 && s.rh == 0.0 } else { s.rn == 0 || (s.rh.abs() < 1e-5 && s.rg.abs() < 1e-4) };
    let mut res = Vec::new();
    let mut lw = cw(pm, s.lg, s.lh, lo, up);
    let mut rw = cw(pm, s.rg, s.rh, lo, up);
    let mut fin = |dir: u8, lw: f64, rw: f64, mw: f64, lgain: f64, rgain: f64, mgain: f64, lh: f64, rh: f64, mut ok: bool, mut sure: bool, amb: bool| {
        let gain = lgain + rgain + mgain - ngain;
        let scale = 1.0 + lgain.abs() + rgain.abs() + mgain.abs() + ngain.abs();
        if lh < mlw - ht || rh < mlw - ht {
            ok = false;
        }
        if lh < mlw + ht || rh < mlw + ht {
            if !(tc.exact && lh >= mlw && rh >= mlw) {
                sure = false;
            }
        }
        if con != 0 {
            let d = (rw - lw) * con as f64;
            if d < -wtol(lw, rw) {
                ok = false;
            }
            if d < wtol(lw, rw) {
                sure = false;
            }
        }
        if !gain.is_finite() {
            ok = false;
        }
        res.push(Out { dir, gain, lw, rw, mw, lg: lgain, rg: rgain, mg: mgain, scale, sure: sure && ok, ok, mw_ambiguous: amb });
    };
    if pm.cmb {
        let bad = lempty || rempty;
        let mut famb = false;
        if pm.force {
            // which child is moved to the parent's weight is decided by their order
            famb = !tc.exact && (lw - rw).abs() < wtol(lw, rw);
            let b = bound(pw, lw, rw);
            lw = b.0;
            rw = b.1;
        }
        let lgain = ggw(pm, s.lg, s.lh, lw);
        let rgain = ggw(pm, s.rg, s.rh, rw);
        let mut amb = famb;
        let mw = match pm.treat {
            1 => cw(pm, s.mg + s.lg + s.rg, s.mh + s.lh + s.rh, lo, up),
            2 | 3 => (rw * s.rh + lw * s.lh) / (s.rh + s.lh),
            _ => {
                if !tc.exact && s.mcol && (s.mg.abs() < 1e-3 * (1.0 + s.absg) || s.mh.abs() < 1e-4) {
                    amb = true;
                }
                if s.mh == 0.0 || s.mg == 0.0 {
                    pw
                } else {
                    cw(pm, s.mg, s.mh, lo, up)
                }
            }
        };
        let mgain = ggw(pm, s.mg, s.mh, mw);
        let ok = !(tc.exact && bad);
        fin(2, lw, rw, mw, lgain, rgain, mgain, s.lh, s.rh, ok, !bad && !amb, amb);
    } else {
        let bad = lempty || rempty;
        let mut ok0 = true;
        let mut sure0 = true;
        if bad && !pm.ams {
            if tc.exact {
                ok0 = false;
            }
            sure0 = false;
        }
        if bad && !tc.exact {
            sure0 = false;
        }
        if !pm.ams {
            if s.rh < mlw - ht || s.lh < mlw - ht {
                ok0 = false;
            }
            if (s.rh < mlw + ht || s.lh < mlw + ht) && !(tc.exact && s.rh >= mlw && s.lh >= mlw) {
                sure0 = false;
            }
        }
        let lgain = ggw(pm, s.lg, s.lh, lw);
        let rgain = ggw(pm, s.rg, s.rh, rw);
        if s.mg == 0.0 && s.mh == 0.0 {
            fin(1, lw, rw, 0.0, lgain, rgain, 0.0, s.lh, s.rh, ok0, sure0, false);
            if !tc.exact {
                fin(0, lw, rw, 0.0, lgain, rgain, 0.0, s.lh, s.rh, ok0, sure0, false);
            }
        } else {
            let cull = |g: f64, l: f64, r: f64| -> (f64, bool) {
                if con == 0 {
                    return (g, false);
                }
                let d = (r - l) * con as f64;
                (if d <= 0.0 { f64::NEG_INFINITY } else { g }, d.abs() < wtol(l, r))
            };
            let mlwt = cw(pm, s.lg + s.mg, s.lh + s.mh, lo, up);
            let mlg0 = ggw(pm, s.lg + s.mg, s.lh + s.mh, mlwt);
            let (mlg, a1) = cull(mlg0, mlwt, rw);
            let mrwt = cw(pm, s.rg + s.mg, s.rh + s.mh, lo, up);
            let mrg0 = ggw(pm, s.rg + s.mg, s.rh + s.mh, mrwt);
            let (mrg, a2) = cull(mrg0, lw, mrwt);
            let mlg = if a1 && !tc.exact { mlg0 } else { mlg };
            let mrg = if a2 && !tc.exact { mrg0 } else { mrg };
            let dl = mlg - lgain;
            let dr = mrg - rgain;
            let tol = if tc.exact { 1e-5 } else { 1e-3 } * (1.0 + mlg0.abs() + mrg0.abs() + lgain.abs() + rgain.abs());
            let left = dr < dl;
            let amb = a1 || a2 || (dl - dr).abs() < tol;
            if left || amb {
                fin(0, mlwt, rw, 0.0, mlg, rgain, 0.0, s.lh + s.mh, s.rh, ok0, sure0, false);
            }
            if !left || amb {
                fin(1, lw, mrwt, 0.0, lgain, mrg, 0.0, s.lh, s.rh + s.mh, ok0, sure0, false);
            }
        }
    }
    res
}

pub type Fails = Vec<(&'static str, String)>;

pub fn check_tree(tree: &Tree, tc: &Tc) -> Fails {
    let mut f: Fails = Vec::new();
    let pm = tc.pm;
    if let Err(e) = check_struct(tree, pm.cmb) {
        f.push(("struct", e));
        return f;
    }
    let nn = tree.nodes.len();
    let leaves = tree.nodes.iter().filter(|n| n.is_leaf).count();
    for n in &tree.nodes {
        if n.depth > pm.max_depth {
            f.push(("limits", format!("node {} at depth {} > max_depth {}", n.num, n.depth, pm.max_depth)));
        }
    }
    if leaves > pm.max_leaves.max(1) {
        f.push(("limits", format!("{} leaves > max_leaves {}", leaves, pm.max_leaves)));
    }
    // rows per node
    let mut rows: Vec<Vec<usize>> = vec![Vec::new(); nn];
    for &i in tc.index {
        for p in route(tree, &tc.ds.row(i), tc.ds.missing) {
            rows[p].push(i);
        }
    }
    let g: Vec<f64> = rows.iter().map(|r| r.iter().map(|&i| tc.grad[i]).sum()).collect();
    let h: Vec<f64> = rows.iter().map(|r| r.iter().map(|&i| tc.hess[i]).sum()).collect();
    let ag: Vec<f64> = rows.iter().map(|r| r.iter().map(|&i| tc.grad[i].abs()).sum()).collect();
    let ctol = if tc.exact { 1e-6 } else { 1e-4 };
    for n in 0..nn {
        if (tree.nodes[n].hessian_sum as f64 - h[n]).abs() > ctol * (1.0 + h[0].abs()) {
            f.push(("cover", format!("node {}: stored hessian sum {} but the rows routed there sum to {}", n, tree.nodes[n].hessian_sum, h[n])));
        }
    }
    let lr = pm.lr as f64;
    let mut tw = vec![0.0; nn];
    let mut tg = vec![0.0; nn];
    let mut lo = vec![f64::NEG_INFINITY; nn];
    let mut up = vec![f64::INFINITY; nn];
    let mut term = vec![false; nn];
    let mut amb = vec![false; nn];
    let mut splittable = vec![false; nn];
    tw[0] = wt(pm, g[0], h[0]);
    tg[0] = g[0] * g[0] / (h[0] + pm.l2 as f64);
    let added = if pm.cmb { 2 } else { 1 };
    let mcol: Vec<bool> = (0..tc.ds.cols).map(|c| (0..tc.ds.rows).any(|i| tc.ds.is_miss(tc.ds.at(i, c)))).collect();
    for n in 0..nn {
        let nd = &tree.nodes[n];
        let gamma = pm.gamma as f64;
        // every candidate of this node
        let mut best: Option<(f64, f64, usize, f64)> = None;
        if nd.depth < pm.max_depth && !term[n] && !amb[n] {
            for &c in tc.cols {
                for &cut in &tc.cuts[c] {
                    let mut s = Sums { lg: 0.0, lh: 0.0, rg: 0.0, rh: 0.0, mg: 0.0, mh: 0.0, ln: 0, rn: 0, mn: 0, absg: ag[n], mcol: mcol[c] };
                    for &i in &rows[n] {
                        let v = tc.ds.at(i, c);
                        if tc.ds.is_miss(v) {
                            s.mg += tc.grad[i];
                            s.mh += tc.hess[i];
                            s.mn += 1;
                        } else if v < cut {
                            s.lg += tc.grad[i];
                            s.lh += tc.hess[i];
                            s.ln += 1;
                        } else {
                            s.rg += tc.grad[i];
                            s.rh += tc.hess[i];
                            s.rn += 1;
                        }
                    }
                    let outs = eval(tc, &s, lo[n], up[n], tw[n], tg[n], pm.con(c));
                    if outs.iter().all(|o| o.sure) && !outs.is_empty() {
                        let o = outs.iter().min_by(|a, b| a.gain.total_cmp(&b.gain)).unwrap();
                        if best.map_or(true, |b| o.gain > b.0) {
                            best = Some((o.gain, o.scale, c, cut));
                        }
                    }
                }
            }
        }
        let gt = if tc.exact { 2e-5 } else { 5e-3 };
        if let Some((bg, bs, _, _)) = best {
            splittable[n] = bg - gamma > gt * bs;
        }
        if nd.is_leaf {
            if splittable[n] && leaves + added <= pm.max_leaves {
                let b = best.unwrap();
                f.push(("split", format!("node {} was left a leaf but feature {} at {} has gain {} (gamma {})", n, b.2, b.3, b.0, gamma)));
            }
            continue;
        }
        // the split that was made
        let c = nd.split_feature;
        if !tc.cols.contains(&c) {
            f.push(("split", format!("node {} splits on feature {} which was not offered", n, c)));
            return f;
        }
        if !tc.cuts[c].contains(&nd.split_value) {
            f.push(("split", format!("node {}: split value {} is not a cut of feature {}", n, nd.split_value, c)));
        }
        if term[n] {
            f.push(("missing", format!("node {} holds terminated missing rows but was split", n)));
        }
        let mut s = Sums { lg: 0.0, lh: 0.0, rg: 0.0, rh: 0.0, mg: 0.0, mh: 0.0, ln: 0, rn: 0, mn: 0, absg: ag[n], mcol: mcol[c] };
        for &i in &rows[n] {
            let v = tc.ds.at(i, c);
            if tc.ds.is_miss(v) {
                s.mg += tc.grad[i];
                s.mh += tc.hess[i];
                s.mn += 1;
            } else if v < nd.split_value {
                s.lg += tc.grad[i];
                s.lh += tc.hess[i];
                s.ln += 1;
            } else {
                s.rg += tc.grad[i];
                s.rh += tc.hess[i];
                s.rn += 1;
            }
        }
        let outs = eval(tc, &s, lo[n], up[n], tw[n], tg[n], pm.con(c));
        let dir = if pm.cmb {
            2
        } else if nd.missing_node == nd.left_child {
            0
        } else {
            1
        };
        let o = match outs.iter().find(|o| o.dir == dir) {
            Some(o) => o.clone(),
            None => {
                f.push(("missing", format!("node {}: missing rows go {} although the other direction has the larger gain: {:?}", n, ["left", "right"][dir as usize], outs)));
                return f;
            }
        };
        if !amb[n] {
            if !o.ok && !(pm.force && o.mw_ambiguous) {
                f.push(("split", format!("node {}: split on feature {} at {} is not allowed (min_leaf_weight {}, H {} / {}, weights {} / {}, constraint {})", n, c, nd.split_value, pm.mlw, s.lh, s.rh, o.lw, o.rw, pm.con(c))));
            }
            if !o.mw_ambiguous {
            if !(o.gain - gamma > -gt * o.scale) {
                f.push(("split", format!("node {}: split on feature {} at {} has gain {} <= gamma {}", n, c, nd.split_value, o.gain, gamma)));
            }
            if let Some((bg, bs, bc, bcut)) = best {
                if o.gain < bg - gt * (bs + o.scale) {
                    f.push(("split", format!("node {}: split on feature {} at {} has gain {} but feature {} at {} has {}", n, c, nd.split_value, o.gain, bc, bcut, bg)));
                }
            }
            if (nd.split_gain as f64 - o.gain).abs() > gt * o.scale {
                f.push(("split", format!("node {}: stored gain {} but recomputed {}", n, nd.split_gain, o.gain)));
            }
            }
        }
        let (l, r, m) = (nd.left_child, nd.right_child, nd.missing_node);
        tw[l] = o.lw;
        tw[r] = o.rw;
        tg[l] = o.lg;
        tg[r] = o.rg;
        amb[l] = amb[n] || (pm.force && o.mw_ambiguous);
        amb[r] = amb[n] || (pm.force && o.mw_ambiguous);
        let mid = (o.lw + o.rw) / 2.0;
        match pm.con(c) {
            0 => {
                lo[l] = lo[n];
                up[l] = up[n];
                lo[r] = lo[n];
                up[r] = up[n];
            }
            1 => {
                lo[l] = lo[n];
                up[l] = mid;
                lo[r] = mid;
                up[r] = up[n];
            }
            _ => {
                lo[l] = mid;
                up[l] = up[n];
                lo[r] = lo[n];
                up[r] = mid;
            }
        }
        if pm.cmb {
            tw[m] = if pm.treat == 1 { tw[n] } else { o.mw };
            tg[m] = o.mg;
            lo[m] = lo[n];
            up[m] = up[n];
            amb[m] = amb[n] || o.mw_ambiguous;
            let has = if tc.exact { s.mg != 0.0 || s.mh != 0.0 } else { s.mn > 0 };
            term[m] = !pm.ams || !has || s.mn == 0 || pm.term.contains(&c);
            if pm.treat == 1 {
                let (a, b) = (nd.weight_value, tree.nodes[m].weight_value);
                if a != b && !(a.is_nan() && b.is_nan()) {
                    f.push(("missing", format!("node {}: missing child weight {} differs from its parent's {}", n, b, a)));
                }
            }
            if pm.force && pm.treat != 2 {
                let (p, x, y) = (nd.weight_value, tree.nodes[l].weight_value, tree.nodes[r].weight_value);
                if !(x.min(y) <= p && p <= x.max(y)) {
                    f.push(("force", format!("node {}: weight {} is not between its children's {} and {}", n, p, x, y)));
                }
            }
        }
    }
    // weights
    let mut want: Vec<f64> = tw.iter().map(|w| w * lr).collect();
    if pm.cmb && pm.treat == 2 {
        avg_update(tree, 0, &mut want);
    }
    let wtol = if tc.exact { 2e-5 } else { 2e-3 };
    let any_amb = amb.iter().any(|a| *a);
    for n in 0..nn {
        if amb[n] || (any_amb && pm.treat == 2) {
            continue;
        }
        let got = tree.nodes[n].weight_value as f64;
        if !close(got, want[n], wtol) {
            // is this the missing child of a separate branch?
            let miss = pm.cmb && tree.nodes.iter().any(|p| !p.is_leaf && p.missing_node == n);
            f.push((if miss { "missing" } else { "weight" }, format!("node {}: weight {} but expected {} (G {} H {} bounds {} {})", n, got, want[n], g[n], h[n], lo[n], up[n])));
        }
        if pm.mds > 0.0 && got.abs() > pm.mds as f64 * lr * (1.0 + 1e-5) {
            f.push(("weight", format!("node {}: |weight| {} exceeds max_delta_step * learning rate", n, got)));
        }
    }
    // growth order
    if !any_amb {
        let mut ex: Vec<usize> = (0..nn).filter(|&n| !tree.nodes[n].is_leaf).collect();
        ex.sort_by_key(|&n| tree.nodes[n].left_child);
        if pm.lossguide {
            let mut front = vec![0usize];
            for &n in &ex {
                if !front.contains(&n) {
                    f.push(("order", format!("node {} was expanded before it existed", n)));
                    break;
                }
                for &o in &front {
                    if o != n && (splittable[o]) && !term[o] && tg[o] > tg[n] + if tc.exact { 1e-4 } else { 1e-2 } * (1.0 + tg[o].abs()) {
                        f.push(("order", format!("node {} (score {}) was expanded before node {} (score {})", n, tg[n], o, tg[o])));
                    }
                }
                front.retain(|&x| x != n);
                front.push(tree.nodes[n].left_child);
                front.push(tree.nodes[n].right_child);
                if pm.cmb {
                    front.push(tree.nodes[n].missing_node);
                }
            }
        } else {
            let mut key = 0usize;
            for &n in &ex {
                if tree.nodes[n].depth < key {
                    f.push(("order", format!("node {} at depth {} expanded after a deeper level", n, tree.nodes[n].depth)));
                }
                key = key.max(tree.nodes[n].depth);
            }
            for l in 0..nn {
                if tree.nodes[l].is_leaf && splittable[l] && tree.nodes[l].depth < key {
                    f.push(("order", format!("splittable node {} at depth {} skipped although depth {} was expanded", l, tree.nodes[l].depth, key)));
                }
            }
        }
    }
    f
}

fn avg_update(tree: &Tree, n: usize, w: &mut Vec<f64>) -> f64 {
    let nd = &tree.nodes[n];
    if nd.is_leaf {
        return w[n];
    }
    let (l, r, m) = (nd.left_child, nd.right_child, nd.missing_node);
    let rw = avg_update(tree, r, w);
    let lw = avg_update(tree, l, w);
    let (lh, rh) = (tree.nodes[l].hessian_sum as f64, tree.nodes[r].hessian_sum as f64);
    let leaf = tree.nodes[m].is_leaf;
    let (mh, mw) = if leaf { (0.0, 0.0) } else { (tree.nodes[m].hessian_sum as f64, avg_update(tree, m, w)) };
    let u = (rw * rh + lw * lh + mw * mh) / (lh + rh + mh);
    w[n] = u;
    if leaf {
        w[m] = u;
    }
    u
}
