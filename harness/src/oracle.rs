//! Reference model of the pipeline stages. Every function takes what the previous stage was
//! observed to produce and judges what the stage was observed to make of it.
use crate::proto::{Edge, Node};
use crate::trace::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::f64::consts::TAU;

/// Segments the angle of (x, y) may fall in: one, or two if it lies on a border up to rounding.
pub fn candidate_segments(c: &[f32], rate: usize) -> Vec<usize> {
    let (x, y) = (c[0] as f64, c[1] as f64);
    let a = y.atan2(x);
    let a = if a < 0.0 { a + TAU } else { a };
    let s = a / TAU * rate as f64;
    let tol = 2e-6 * rate as f64 + 1e-9;
    let r = s.round();
    if (s - r).abs() < tol {
        let hi = r as usize % rate;
        let lo = (r as usize + rate - 1) % rate;
        vec![hi, lo]
    } else {
        vec![s.floor() as usize % rate]
    }
}

pub fn judge_segments(points: &[Point], rate: usize) -> Result<(), String> {
    for (id, c, s) in points {
        if *s >= rate {
            return Err(format!("point {id} is in segment {s} of {rate}"));
        }
        if c.iter().any(|x| !x.is_finite()) {
            return Err(format!("point {id} has the coordinates {c:?}"));
        }
        if !candidate_segments(c, rate).contains(s) {
            return Err(format!(
                "point {id} at {c:?} is in segment {s}, expected {:?} of {rate}",
                candidate_segments(c, rate)
            ));
        }
    }
    Ok(())
}

/// Number of segments a move from a to b goes forward, if it is a valid transition.
pub fn forward(a: usize, b: usize, rate: usize) -> Option<usize> {
    let k = (b + rate - a) % rate;
    if k > 0 && k <= rate / 2 {
        Some(k)
    } else {
        None
    }
}

/// What happened in the segmentation: (mirrored, valid, backward)
pub struct Segmented {
    pub mirrored: bool,
    pub valid: usize,
    pub backward: usize,
    pub wraps: usize,
}

pub fn judge_transitions(
    points: &[Point],
    trans: &[(Point, Point)],
    rate: usize,
    self_correction: bool,
) -> Result<Segmented, String> {
    judge_transitions_of_parts(points, trans, rate, self_correction, &[])
}

/// `starts`: first points of a cluster node's part; moves to them do not count for the mirroring.
pub fn judge_transitions_of_parts(
    points: &[Point],
    trans: &[(Point, Point)],
    rate: usize,
    self_correction: bool,
    starts: &[usize],
) -> Result<Segmented, String> {
    let mut valid = 0;
    let mut backward = 0;
    for w in points.windows(2) {
        if w[0].2 != w[1].2 && !starts.contains(&w[1].0) {
            match forward(w[0].2, w[1].2, rate) {
                Some(_) => valid += 1,
                None => backward += 1,
            }
        }
    }
    let mirrored = self_correction && valid < backward;
    let mut out = Segmented { mirrored, valid, backward, wraps: 0 };
    let coords: HashMap<usize, Vec<f32>> = points
        .iter()
        .map(|(i, c, _)| {
            let mut c = c.clone();
            if mirrored {
                c[0] = -c[0];
            }
            (*i, c)
        })
        .collect();
    let seg: HashMap<usize, Vec<usize>> = points
        .iter()
        .map(|(i, _, s)| {
            (*i, if mirrored { candidate_segments(&coords[i], rate) } else { vec![*s] })
        })
        .collect();
    let mut seen: HashMap<usize, usize> = HashMap::new();
    let mut got: HashSet<usize> = HashSet::new();
    let mut last = None;
    for (a, b) in trans {
        if b.0 != a.0 + 1 {
            return Err(format!("a transition leads from time step {} to {}", a.0, b.0));
        }
        if let Some(l) = last {
            if a.0 <= l {
                return Err(format!("transition at time step {} follows the one at {l}", a.0));
            }
        }
        last = Some(a.0);
        for p in [a, b] {
            let c = coords.get(&p.0).ok_or(format!("transition with unknown point {}", p.0))?;
            if c.iter().zip(&p.1).any(|(x, y)| x != y) || c.len() != p.1.len() {
                return Err(format!(
                    "point {} of a transition is at {:?}, expected {:?} (mirrored: {mirrored})",
                    p.0, p.1, c
                ));
            }
            if !seg[&p.0].contains(&p.2) {
                return Err(format!(
                    "point {} of a transition is in segment {}, expected {:?} (mirrored: {mirrored})",
                    p.0, p.2, seg[&p.0]
                ));
            }
            if let Some(s) = seen.insert(p.0, p.2) {
                if s != p.2 {
                    return Err(format!("point {} is in the segments {s} and {}", p.0, p.2));
                }
            }
        }
        if forward(a.2, b.2, rate).is_none() {
            return Err(format!(
                "a transition at time step {} leads from segment {} to {} of {rate}",
                a.0, a.2, b.2
            ));
        }
        if b.2 < a.2 {
            out.wraps += 1;
        }
        got.insert(a.0);
    }
    for w in points.windows(2) {
        let all = seg[&w[0].0]
            .iter()
            .all(|a| seg[&w[1].0].iter().all(|b| forward(*a, *b, rate).is_some()));
        if all && !got.contains(&w[0].0) {
            return Err(format!(
                "no transition at time step {}, though it moves from segment {:?} to {:?} of {rate} (mirrored: {mirrored})",
                w[0].0, seg[&w[0].0], seg[&w[1].0]
            ));
        }
    }
    Ok(out)
}

#[derive(Default)]
pub struct CutStats {
    pub cuts: usize,
    pub coords_checked: usize,
    pub multi: usize,
    pub wraps: usize,
    pub worst: f64,
}

pub fn judge_intersections(
    trans: &[(Point, Point)],
    cuts: &[(usize, usize, Vec<f32>)],
    rate: usize,
) -> Result<CutStats, String> {
    let mut st = CutStats::default();
    let mut got: BTreeMap<(usize, usize), &Vec<f32>> = BTreeMap::new();
    for (s, i, c) in cuts {
        if got.insert((*i, *s), c).is_some() {
            return Err(format!("the move at time step {i} is cut twice in segment {s}"));
        }
    }
    let mut want = 0;
    for (a, b) in trans {
        let k = match forward(a.2, b.2, rate) {
            Some(k) => k,
            None => continue,
        };
        if k > 1 {
            st.multi += 1;
        }
        if a.2 + k >= rate {
            st.wraps += 1;
        }
        for lag in 1..=k {
            want += 1;
            let s = (a.2 + lag) % rate;
            let c = got.get(&(a.0, s)).ok_or_else(|| {
                format!(
                    "the move at time step {} from segment {} to {} of {rate} is not cut at segment {s}",
                    a.0, a.2, b.2
                )
            })?;
            st.cuts += 1;
            // the cut itself
            let dims = a.1.len();
            let phi = TAU * s as f64 / rate as f64;
            let n = (-phi.sin(), phi.cos());
            let p: Vec<f64> = a.1.iter().map(|x| *x as f64).collect();
            let d: Vec<f64> = b.1.iter().zip(&a.1).map(|(x, y)| *x as f64 - *y as f64).collect();
            let dn = d[0] * n.0 + d[1] * n.1;
            let pn = p[0] * n.0 + p[1] * n.1;
            let dl = d.iter().map(|x| x * x).sum::<f64>().sqrt();
            let pl = p.iter().map(|x| x * x).sum::<f64>().sqrt();
            if c.len() * 2 != dims {
                return Err(format!("a cut with {} coordinates in {} dimensions", c.len(), dims));
            }
            if c.iter().any(|x| !x.is_finite()) {
                return Err(format!("a cut at time step {} has the coordinates {c:?}", a.0));
            }
            if dn.abs() < 2e-2 * dl || dl == 0.0 {
                continue; // nearly parallel: rounding decides
            }
            let t = -pn / dn;
            let ch = dims / 2;
            let scale = dl / dn.abs();
            let tol = (pl + dl) * scale * scale * 4e-5;
            for (j, v) in c.iter().enumerate() {
                let q0 = p[j] + t * d[j];
                let q1 = p[ch + j] + t * d[ch + j];
                let w = (q0 * q0 + q1 * q1).sqrt();
                let e = (w - *v as f64).abs();
                st.worst = st.worst.max(e / tol);
                if e > tol {
                    return Err(format!(
                        "the move at time step {} from {:?} to {:?} is cut at segment {s} of {rate} in {:?}, expected {w} in channel {j} (tolerance {tol})",
                        a.0, a.1, b.1, c
                    ));
                }
            }
            st.coords_checked += 1;
        }
    }
    if got.len() != want {
        let starts: HashMap<usize, (usize, usize)> =
            trans.iter().map(|(a, b)| (a.0, (a.2, b.2))).collect();
        for ((i, s), _) in &got {
            match starts.get(i) {
                None => return Err(format!("cut at time step {i}, where no transition starts")),
                Some((a, b)) => {
                    let k = forward(*a, *b, rate).unwrap_or(0);
                    if !(1..=k).any(|l| (a + l) % rate == *s) {
                        return Err(format!(
                            "the move at time step {i} from segment {a} to {b} of {rate} is cut at segment {s}"
                        ));
                    }
                }
            }
        }
    }
    Ok(st)
}

/// Peaks of the kernel density of one column: (index, certain)
fn peaks(col: &[f32]) -> Vec<(f64, bool)> {
    let n = col.len();
    let lo = col.iter().copied().fold(f32::INFINITY, f32::min) as f64;
    let hi = col.iter().copied().fold(f32::NEG_INFINITY, f32::max) as f64;
    let mean = col.iter().map(|x| *x as f64).sum::<f64>() / n as f64;
    let var = col.iter().map(|x| (*x as f64 - mean).powi(2)).sum::<f64>() / (n as f64 - 1.0);
    if var == 0.0 {
        return vec![];
    }
    let bw = (var * (n as f64).powf(-0.4)).sqrt();
    let pad = (hi - lo) * 0.1;
    let m = 250;
    let grid: Vec<f64> = (0..m)
        .map(|i| lo - pad + (hi - lo + 2.0 * pad) * i as f64 / (m as f64 - 1.0))
        .collect();
    // the absolute rounding error of a whitened coordinate
    let werr = (lo.abs().max(hi.abs()) / bw + 1.0) * 3e-7;
    let est: Vec<(f64, f64)> = grid
        .iter()
        .map(|g| {
            let mut v = 0.0;
            let mut err = 0.0;
            for x in col {
                let r = (*x as f64 - g) / bw;
                let k = (-r * r / 2.0).exp();
                v += k;
                err += k * (r.abs() * werr + 1e-7 + r * r * 2e-7);
            }
            // summation error and values below the range of f32
            (v, err + v * 1.5e-7 * ((n as f64).sqrt() + 2.0) + 1e-30)
        })
        .collect();
    let mut out = vec![];
    for i in 0..m {
        if i == 0 || i == m - 1 {
            continue; // compared with itself: never greater
        }
        let up = est[i].0 - est[i - 1].0;
        let down = est[i].0 - est[i + 1].0;
        let (eu, ed) = (est[i].1 + est[i - 1].1, est[i].1 + est[i + 1].1);
        if up > eu && down > ed {
            out.push((grid[i], true));
        } else if up > -eu && down > -ed {
            out.push((grid[i], false));
        }
    }
    out
}

/// All assignments to peaks (as group numbers) a column may get; None if there are too many or a
/// value lies between two peaks.
pub fn groupings(col: &[f32]) -> Option<Vec<Vec<usize>>> {
    let pk = peaks(col);
    let unsure: Vec<usize> = (0..pk.len()).filter(|i| !pk[*i].1).collect();
    if unsure.len() > 6 {
        return None;
    }
    let lo = col.iter().copied().fold(f32::INFINITY, f32::min) as f64;
    let hi = col.iter().copied().fold(f32::NEG_INFINITY, f32::max) as f64;
    let tol = (hi.abs().max(lo.abs())) * 1e-6 + (hi - lo) * 1e-5;
    let mut all = vec![];
    for mask in 0..1usize << unsure.len() {
        let use_: Vec<f64> = pk
            .iter()
            .enumerate()
            .filter(|(i, p)| p.1 || unsure.iter().position(|u| u == i).map(|b| mask >> b & 1 == 1).unwrap_or(false))
            .map(|(_, p)| p.0)
            .collect();
        let mut g = vec![];
        for x in col {
            let x = *x as f64;
            let mut d: Vec<(f64, usize)> =
                use_.iter().enumerate().map(|(i, p)| ((p - x).abs(), i)).collect();
            d.sort_by(|a, b| a.partial_cmp(b).unwrap());
            if d.len() > 1 && d[1].0 - d[0].0 < tol {
                return None;
            }
            g.push(d.first().map(|x| x.1).unwrap_or(0));
        }
        all.push(normal(&g));
    }
    all.sort();
    all.dedup();
    Some(all)
}

/// Renumbers groups in order of appearance.
pub fn normal<T: std::hash::Hash + Eq + Clone>(g: &[T]) -> Vec<usize> {
    let mut m: HashMap<T, usize> = HashMap::new();
    g.iter()
        .map(|x| {
            let n = m.len();
            *m.entry(x.clone()).or_insert(n)
        })
        .collect()
}

#[derive(Default)]
pub struct NodeStats {
    pub segments: usize,
    pub decided: usize,
    pub split: usize,
    pub single: usize,
}

pub fn judge_nodes(
    cuts: &[(usize, usize, Vec<f32>)],
    nodes: &[Node],
    _rate: usize,
) -> Result<NodeStats, String> {
    let mut st = NodeStats::default();
    let mut label: HashMap<(usize, usize), usize> = HashMap::new();
    for (s, c, i) in nodes {
        if label.insert((*s, *i), *c).is_some() {
            return Err(format!("two nodes for time step {i} in segment {s}"));
        }
    }
    if nodes.len() != cuts.len() {
        return Err(format!("{} cuts were turned into {} visits of nodes", cuts.len(), nodes.len()));
    }
    let mut by_seg: BTreeMap<usize, Vec<(usize, &Vec<f32>)>> = BTreeMap::new();
    for (s, i, c) in cuts {
        by_seg.entry(*s).or_default().push((*i, c));
    }
    for (s, list) in &by_seg {
        st.segments += 1;
        let mut got = vec![];
        for (i, _) in list {
            got.push(
                *label.get(&(*s, *i)).ok_or(format!("no node for the cut of time step {i} in segment {s}"))?,
            );
        }
        let got = normal(&got);
        if list.len() == 1 {
            st.single += 1;
            st.decided += 1;
            continue;
        }
        let dims = list[0].1.len();
        let mut per_dim = vec![];
        for d in 0..dims {
            let col: Vec<f32> = list.iter().map(|(_, c)| c[d]).collect();
            match groupings(&col) {
                Some(g) => per_dim.push(g),
                None => break,
            }
        }
        if per_dim.len() < dims || per_dim.iter().map(|g| g.len()).product::<usize>() > 512 {
            continue;
        }
        let mut combos: Vec<Vec<usize>> = vec![vec![0; list.len()]];
        for g in &per_dim {
            let mut next = vec![];
            for c in &combos {
                for a in g {
                    let pair: Vec<(usize, usize)> =
                        c.iter().copied().zip(a.iter().copied()).collect();
                    next.push(normal(&pair));
                }
            }
            next.sort();
            next.dedup();
            combos = next;
        }
        st.decided += 1;
        if got.iter().max() > Some(&0) {
            st.split += 1;
        }
        if !combos.contains(&got) {
            let vals: Vec<_> = list.iter().map(|(i, c)| (*i, (*c).clone())).collect();
            return Err(format!(
                "cuts in segment {s} (time step, coordinates) {vals:?} are grouped {got:?}, expected {:?}",
                combos[0]
            ));
        }
    }
    Ok(st)
}

/// The path of the series through its nodes.
pub fn visits(trans: &[(Point, Point)], nodes: &[Node], rate: usize) -> Result<Vec<Node>, String> {
    let label: HashMap<(usize, usize), usize> =
        nodes.iter().map(|(s, c, i)| ((*s, *i), *c)).collect();
    let mut out = vec![];
    for (a, b) in trans {
        for lag in 1..=forward(a.2, b.2, rate).unwrap_or(0) {
            let s = (a.2 + lag) % rate;
            let c = label
                .get(&(s, a.0))
                .ok_or(format!("no node in segment {s} for the move at time step {}", a.0))?;
            out.push((s, *c, a.0));
        }
    }
    Ok(out)
}

pub fn judge_edges(
    trans: &[(Point, Point)],
    nodes: &[Node],
    edges: &[Edge],
    rate: usize,
) -> Result<usize, String> {
    let v = visits(trans, nodes, rate)?;
    let want: Vec<Edge> = v.windows(2).map(|w| (w[0], w[1])).collect();
    for (k, w) in want.iter().enumerate() {
        match edges.get(k) {
            None => {
                return Err(format!("edge {k} (segment, node, time step) {w:?} of the path is missing"))
            }
            Some(e) if e != w => {
                return Err(format!(
                    "edge {k} of the graph is {e:?} (segment, node, time step), the path has {w:?}"
                ))
            }
            _ => {}
        }
    }
    if edges.len() > want.len() {
        return Err(format!("edge {:?} is not on the path", edges[want.len()]));
    }
    Ok(v.len())
}

/// Edges of each window, as index ranges.
pub fn windows(edges: &[Edge], n_points: usize, q: usize) -> Vec<(usize, usize)> {
    let mut upto = vec![0usize; n_points.saturating_sub(1)];
    let mut k = 0;
    for (p, u) in upto.iter_mut().enumerate() {
        while k < edges.len() && edges[k].1 .2 <= p {
            k += 1;
        }
        *u = k;
    }
    (0..n_points.saturating_sub(q))
        .map(|i| {
            let from = upto[i];
            let to = (upto[i + q - 1] + 1).min(edges.len());
            (from, to.max(from))
        })
        .collect()
}

pub struct ScoreModel {
    /// scores and their tolerance
    pub score: Vec<f64>,
    pub tol: f64,
    pub empty_windows: usize,
    pub constant: bool,
}

pub fn score_model(edges: &[Edge], n_points: usize, q: usize) -> ScoreModel {
    type N = (usize, usize);
    let key = |e: &Edge| -> (N, N) { ((e.0 .0, e.0 .1), (e.1 .0, e.1 .1)) };
    let mut weight: HashMap<(N, N), u64> = HashMap::new();
    for e in edges {
        *weight.entry(key(e)).or_default() += 1;
    }
    let mut degree: HashMap<N, u64> = HashMap::new();
    for (a, b) in weight.keys() {
        *degree.entry(*a).or_default() += 1;
        *degree.entry(*b).or_default() += 1;
    }
    let mut raw: Vec<f64> = vec![];
    let mut empty_windows = 0;
    // whole numbers add up exactly in f32 until 2^24; from there on every addition may round
    let mut rounding: f64 = 0.0;
    for (from, to) in windows(edges, n_points, q) {
        if from == to {
            empty_windows += 1;
            raw.push(raw.last().copied().unwrap_or(0.0));
            continue;
        }
        let s: f64 = edges[from..to]
            .iter()
            .map(|e| {
                let k = key(e);
                (weight[&k] * (degree[&k.0] - 1)) as f64
            })
            .sum();
        if s >= 16_777_216.0 {
            rounding = rounding.max(s / 2.0 / 16_777_216.0);
        }
        raw.push(-s / (to - from) as f64);
    }
    let lo = raw.iter().copied().fold(f64::INFINITY, f64::min);
    let hi = raw.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let mag = lo.abs().max(hi.abs());
    let constant = hi - lo <= (mag * 1e-6).max(3.0 * rounding);
    ScoreModel {
        score: raw.iter().map(|r| if constant { 0.0 } else { (r - lo) / (hi - lo) }).collect(),
        tol: if constant { 0.0 } else { 1e-5 + (mag * 2e-6 + 3.0 * rounding) / (hi - lo) },
        empty_windows,
        constant,
    }
}

pub fn judge_score(edges: &[Edge], n_points: usize, q: usize, score: &[f32]) -> Result<ScoreModel, String> {
    let m = score_model(edges, n_points, q);
    if score.len() != m.score.len() {
        return Err(format!("{} scores, expected {}", score.len(), m.score.len()));
    }
    if m.constant && score.iter().any(|x| *x != 0.0) && m.tol == 0.0 {
        // a difference below the resolution of the model
        let exact = m.score.iter().all(|x| *x == 0.0);
        if exact && edges.is_empty() {
            return Err("a series without any edge is not scored with zeros".into());
        }
        return Ok(m);
    }
    for (i, (a, b)) in score.iter().zip(&m.score).enumerate() {
        if (*a as f64 - b).abs() > m.tol || !a.is_finite() {
            return Err(format!("window {i} has the score {a}, expected {b} (tolerance {})", m.tol));
        }
    }
    Ok(m)
}
