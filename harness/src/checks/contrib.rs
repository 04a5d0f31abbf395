//! C09: the anomaly contribution file.
use super::*;
use crate::driver::*;
use crate::oracle;
use crate::proto::*;
use crate::trace::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    run: stages::Case,
    from_file: bool,
    old: bool,
}

/// Rarity per node (segment, cluster) and channel, from the cuts alone where their grouping is
/// certain, otherwise from the reported peaks.
fn rarities(t: &Trace) -> Result<(HashMap<(usize, usize), Vec<f64>>, usize, usize), String> {
    let cuts = t.intersections.as_ref().ok_or("no intersections")?;
    let nodes = t.nodes.as_ref().ok_or("no nodes")?;
    let label: HashMap<(usize, usize), usize> = nodes.iter().map(|(s, c, i)| ((*s, *i), *c)).collect();
    let mut by_seg: BTreeMap<usize, Vec<(usize, &Vec<f32>)>> = BTreeMap::new();
    for (s, i, c) in cuts {
        by_seg.entry(*s).or_default().push((*i, c));
    }
    let reported: HashMap<usize, &Arr> = t.clusterings.iter().map(|(s, _, c)| (*s, c)).collect();
    let mut out: HashMap<(usize, usize), Vec<f64>> = HashMap::new();
    let (mut decided, mut total) = (0, 0);
    for (s, list) in &by_seg {
        let labels: Vec<usize> = list
            .iter()
            .map(|(i, _)| label.get(&(*s, *i)).copied().ok_or(format!("no node at time step {i} in segment {s}")))
            .collect::<Result<_, _>>()?;
        let dims = list[0].1.len();
        let share = |g: &[usize], i: usize| -> f64 {
            1.0 - g.iter().filter(|x| **x == g[i]).count() as f64 / g.len() as f64
        };
        for d in 0..dims {
            total += 1;
            let col: Vec<f32> = list.iter().map(|(_, c)| c[d]).collect();
            // what the program says about peaks
            let by_center = reported.get(s).filter(|c| c.shape.len() == 2 && c.shape[1] == dims).and_then(|c| {
                let keys: Option<Vec<u32>> = labels
                    .iter()
                    .map(|l| if *l < c.shape[0] { Some(c.at2(*l, d).to_bits()) } else { None })
                    .collect();
                keys.map(|k| oracle::normal(&k))
            });
            let candidates = if list.len() == 1 { Some(vec![vec![0]]) } else { oracle::groupings(&col) };
            let g = match (candidates, by_center) {
                (Some(c), Some(b)) if c.contains(&b) => {
                    decided += 1;
                    b
                }
                (Some(c), _) if c.len() == 1 => {
                    decided += 1;
                    c[0].clone()
                }
                (Some(c), _) => {
                    return Err(format!(
                        "cuts of channel {d} in segment {s} {col:?}: none of the groupings {c:?} by peak is reported"
                    ))
                }
                (None, Some(b)) => b,
                (None, None) => return Err(format!("no peaks reported for segment {s}")),
            };
            for (i, l) in labels.iter().enumerate() {
                let e = out.entry((*s, *l)).or_insert_with(|| vec![f64::NAN; dims]);
                let v = share(&g, i);
                if !e[d].is_nan() && e[d] != v {
                    return Err(format!("node {l} of segment {s} mixes cuts with different peaks in channel {d}"));
                }
                e[d] = v;
            }
        }
    }
    Ok((out, decided, total))
}

fn parse(text: &str, d: usize) -> Result<Vec<Vec<f32>>, String> {
    text.lines()
        .enumerate()
        .map(|(i, l)| {
            let r: Vec<f32> = l
                .split(',')
                .map(|x| x.parse().map_err(|_| format!("line {i} of the contribution file is {l:?}")))
                .collect::<Result<_, _>>()?;
            if r.len() != d {
                return Err(format!("line {i} of the contribution file has {} columns, there are {d} channels", r.len()));
            }
            Ok(r)
        })
        .collect()
}

fn eval(c: &Case, ctx: &mut Ctx) -> Verdict {
    let mut req = match stages::request(&c.run) {
        Some(r) => r,
        None => return pass(false, vec!["too short".into()]),
    };
    let d = match &req.source {
        Source::Memory(r) => r[0].len(),
        _ => unreachable!(),
    };
    let path = ctx.file("contribution.csv");
    let _ = std::fs::remove_file(&path);
    if c.old {
        std::fs::write(&path, "1,2,3\n".repeat(3000)).unwrap();
    }
    req.p.explainability = true;
    req.contribution_path = Some(path.clone());
    if c.from_file {
        if let Source::Memory(rows) = &req.source {
            let csv = ctx.file("in.csv");
            std::fs::write(&csv, io::plain(rows)).unwrap();
            req.source = Source::File(csv);
        }
    }
    let resp = match ok_response(ctx.exec.run(&req)) {
        Ok(r) => r,
        Err(v) => return v,
    };
    let t = Trace::new(resp.trace);
    let (edges, points) = match (&t.scoring_edges, &t.points) {
        (Some(e), Some(p)) => (e, p),
        _ => return Verdict::Fail("a stage is missing".into()),
    };
    let text = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(e) => return Verdict::Fail(format!("the contribution file cannot be read: {e}")),
    };
    let got = match parse(&text, d) {
        Ok(g) => g,
        Err(m) => return Verdict::Fail(m),
    };
    match judge(&t, edges, points.len(), req.p.query_length, d, &got) {
        Err(m) => Verdict::Fail(m),
        Ok(st) => {
            ctx.count("channel/segment groupings decided by the model", st.decided as u64);
            ctx.count("channel/segment groupings", st.total as u64);
            let mut l = stages::kind(&c.run);
            l.push(format!("from file={}", c.from_file));
            if st.repeated > 0 {
                l.push("with windows that repeat the previous row".into());
            }
            if st.zero_start {
                l.push("first window without contribution".into());
            }
            pass(st.varied && st.decided > 0, l)
        }
    }
}

struct Stat {
    decided: usize,
    total: usize,
    repeated: usize,
    zero_start: bool,
    varied: bool,
}

fn judge(t: &Trace, edges: &[Edge], n_points: usize, q: usize, d: usize, got: &[Vec<f32>]) -> Result<Stat, String> {
    let (rare, decided, total) = rarities(t)?;
    let mut st = Stat { decided, total, repeated: 0, zero_start: false, varied: false };
    let w = oracle::windows(edges, n_points, q);
    if got.len() != w.len() {
        return Err(format!("{} contributions for {} windows", got.len(), w.len()));
    }
    let mut rows: Vec<Vec<f64>> = vec![];
    for (k, (from, to)) in w.iter().enumerate() {
        let mut r = vec![0.0; d];
        for e in &edges[*from..*to] {
            let x = rare.get(&(e.0 .0, e.0 .1)).ok_or("an edge starts at a node without cuts")?;
            for c in 0..d {
                r[c] += x[c];
            }
        }
        if to > from {
            r.iter_mut().for_each(|x| *x /= (to - from) as f64);
        }
        if r.iter().all(|x| *x == 0.0) {
            match rows.last() {
                Some(l) => {
                    r = l.clone();
                    st.repeated += 1;
                }
                None if k == 0 => st.zero_start = true,
                None => {}
            }
        }
        rows.push(r);
    }
    st.varied = (0..d).any(|c| rows.iter().any(|r| (r[c] - rows[0][c]).abs() > 1e-3));
    let tol = 2e-5;
    let mut median = vec![];
    for c in 0..d {
        let mut col: Vec<f64> = rows.iter().map(|r| r[c]).collect();
        col.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let want = col[col.len() / 2];
        // the first row is never replaced
        let m = rows[0][c] - got[0][c] as f64;
        if !((m - want).abs() <= 1.0 / 80.0 + tol) || !col.iter().any(|x| (x - m).abs() <= tol) {
            return Err(format!(
                "window 0 has the contribution {:?} in channel {c}; its rarity is {} and the median {want}",
                got[0][c], rows[0][c]
            ));
        }
        median.push(m);
    }
    for i in 0..rows.len() {
        let own: Vec<f64> = (0..d).map(|c| rows[i][c] - median[c]).collect();
        let sum: f64 = own.iter().sum();
        let near = |v: &[f64]| v.iter().zip(&got[i]).all(|(a, b)| (a - *b as f64).abs() <= tol * 2.0);
        let prev: Option<Vec<f64>> = (i > 0).then(|| got[i - 1].iter().map(|x| *x as f64).collect());
        let ok = if sum.abs() > 1e-4 || i == 0 {
            near(&own)
        } else {
            // nothing left after the reduction: repeats the previous row (if exactly nothing is left)
            near(&own) || near(prev.as_ref().unwrap())
        };
        if !ok {
            return Err(format!("window {i} has the contribution {:?}, expected {own:?}", got[i]));
        }
    }
    Ok(st)
}

pub fn c09() -> Check<Case> {
    Check {
        id: "C09",
        rule: "generated trajectories and whole series with explainability, from memory or file, with or without an old contribution file; non-trivial: the contribution of a channel varies and the model decides a grouping",
        strategy: || {
            (stages::strategy(), any::<bool>(), any::<bool>())
                .prop_map(|(run, from_file, old)| Case { run, from_file, old })
                .boxed()
        },
        eval,
        quick: 3000,
        thorough: 60000,
        shards: 8,
        assumptions: &["the observation points report what the stages hand over", "the median may be any value of the column within 1/80 of the exact one (the program sorts at that resolution)"],
    }
}
