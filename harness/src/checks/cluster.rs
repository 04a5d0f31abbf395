//! C10: what a cluster of processes computes up to the rotated points.
use super::embed::*;
use super::io::{layout, Layout};
use crate::driver::*;
use crate::exec::{run_cluster, ClusterEnd, ClusterRun};
use crate::gen::*;
use crate::proto::*;
use crate::trace::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    p: P,
    nodes: usize,
    /// rows per node beyond the pattern length
    extra: usize,
    /// rows that do not divide by the number of nodes
    rest: usize,
    chans: Vec<Chan>,
    /// milliseconds between the starts of the processes
    starts: Vec<u8>,
    /// (process, site, index, microseconds)
    delays: Vec<(u8, u8, u8, u32)>,
    #[serde(default)]
    layout: Option<Layout>,
}

fn strategy() -> BoxedStrategy<Case> {
    (2usize..=6)
        .prop_flat_map(|nodes| {
            (
                params(14),
                prop_oneof![1 => Just(0usize), 2 => 0usize..5, 3 => 5usize..80],
                prop_oneof![1 => Just(nodes - 1), 1 => Just(0), 3 => 0usize..nodes],
                chans(3, true),
                prop::collection::vec(prop_oneof![3 => Just(0u8), 2 => 1u8..60], nodes),
                prop_oneof![
                    1 => Just(vec![]),
                    2 => prop::collection::vec((0u8..nodes as u8, 0u8..4, 0u8..4, prop_oneof![1u32..3000, 3000u32..60_000]), 1..8)
                ],
                prop::option::of(layout()),
            )
                .prop_map(move |(p, extra, rest, chans, starts, delays, layout)| Case {
                    p, nodes, extra, rest, chans, starts, delays, layout,
                })
        })
        .boxed()
}

impl Case {
    fn rows(&self) -> Vec<Vec<f32>> {
        let n = (self.p.pattern_length + self.extra) * self.nodes + self.rest.min(self.nodes - 1);
        let c: Vec<Vec<f32>> = self.chans.iter().map(|c| c.values(n)).collect();
        (0..n).map(|i| c.iter().map(|c| c[i]).collect()).collect()
    }
    fn starts(&self) -> Vec<u64> {
        // the main node has to listen before another one turns to it
        (0..self.nodes).map(|i| self.starts.get(i).copied().unwrap_or(0) as u64 + if i == 0 { 60 } else { 0 }).collect()
    }
    fn delays(&self) -> Vec<Vec<(String, usize, u64)>> {
        let mut d = vec![vec![]; self.nodes];
        for (node, site, index, us) in &self.delays {
            let (site, index) = match site % 4 {
                0 => ("loaded", 0),
                1 => ("components", *index as usize),
                _ => ("pca", *index as usize),
            };
            d[*node as usize % self.nodes].push((site.to_string(), index, *us as u64));
        }
        d
    }
}

fn judge(rows: &[Vec<f32>], c: &Case, traces: Vec<Vec<Ev>>, st: &mut AxesStats) -> Result<(), String> {
    let (n, d, k, l) = (rows.len(), rows[0].len(), c.nodes, c.p.pattern_length);
    let part = n / k;
    let mut nodes: Vec<Trace> = traces.into_iter().map(Trace::new).collect();
    let first = |t: &Trace| t.points.as_ref().and_then(|p| p.first()).map(|p| p.0);
    if nodes.iter().any(|t| first(t).is_none() || t.loaded.is_none() || t.rotation.is_none()) {
        return Err("a node lacks points or an earlier stage".into());
    }
    if first(&nodes[0]) != Some(0) {
        return Err(format!("the main node's first point has the time step {:?}", first(&nodes[0])));
    }
    nodes.sort_by_key(|t| first(t));
    let starts: Vec<usize> = nodes.iter().map(|t| first(t).unwrap()).collect();
    let want: Vec<usize> = (0..k).map(|j| j * part).collect();
    if starts != want {
        return Err(format!("the nodes' points start with the time steps {starts:?}, expected {want:?}"));
    }
    let mut whole = Arr { shape: vec![0, 0, 0], v: Bits::default() };
    for (j, t) in nodes.iter().enumerate() {
        let to = if j + 1 == k { n } else { (j + 1) * part + l - 1 };
        let own = &rows[j * part..to];
        let ld = t.loaded.as_ref().unwrap();
        judge_stats(rows, &c.p, ld).and_then(|_| judge_phase_space(own, &c.p, ld)).map_err(|m| format!("node {j}: {m}"))?;
        whole.shape = vec![whole.shape[0] + ld.phase_space.shape[0], ld.phase_space.shape[1], ld.phase_space.shape[2]];
        whole.v.0.extend(&ld.phase_space.v.0);
    }
    if whole.shape[0] != n + 1 - l {
        return Err(format!("{} windows on all nodes, expected {}", whole.shape[0], n + 1 - l));
    }
    let main = &nodes[0];
    for (j, t) in nodes.iter().enumerate().skip(1) {
        if t.components.len() != d || main.components.len() != d {
            return Err(format!("principal axes for {} and {} channels, expected {d}", main.components.len(), t.components.len()));
        }
        for ch in 0..d {
            let (a, b) = (&main.components[ch], &t.components[ch]);
            if a.0.v.0 != b.0.v.0 || Bits::new(&a.1).0 != Bits::new(&b.1).0 {
                return Err(format!("node {j} has other principal axes or means of channel {ch} than the main node"));
            }
        }
        if main.rotation.as_ref().unwrap().v.0 != t.rotation.as_ref().unwrap().v.0 {
            return Err(format!("node {j} has another rotation than the main node"));
        }
    }
    let rot = main.rotation.as_ref().unwrap();
    judge_axes(&whole, &main.loaded.as_ref().unwrap().data_ref, &main.components, rot, st)?;
    for (j, t) in nodes.iter().enumerate() {
        judge_points(&t.loaded.as_ref().unwrap().phase_space, &main.components, rot, t.points.as_ref().unwrap(), j * part)
            .map_err(|m| format!("node {j}: {m}"))?;
    }
    Ok(())
}

/// The file's text, and the parameters to read it with.
pub fn file(p: &P, rows: &[Vec<f32>], l: &Option<Layout>) -> (String, P) {
    let mut p = p.clone();
    let text = match l {
        None => super::io::plain(rows),
        Some(l) => {
            let (text, start, end) = l.write(rows);
            p.column_start = start;
            p.column_end = end;
            text
        }
    };
    (text, p)
}

fn eval(c: &Case, ctx: &mut Ctx) -> Verdict {
    let rows = c.rows();
    let csv = ctx.file("cluster.csv");
    let (text, p) = file(&c.p, &rows, &c.layout);
    std::fs::write(&csv, text).expect("write");
    let mut last = String::new();
    let mut attempt = 0;
    let mut collisions = 0;
    while attempt < 3 {
        attempt += 1;
        ctx.count("clusters started", 1);
        let run = ClusterRun {
            p: &p,
            csv: &csv,
            k: c.nodes,
            starts: c.starts(),
            delays: c.delays(),
            inject: None,
            whole: false,
            score_path: None,
        };
        match run_cluster(&run) {
            Err(ClusterEnd::Timeout) => return Verdict::Inconclusive("no answer in time".into()),
            Err(ClusterEnd::Stalled(m)) if m.contains("AddrInUse") && collisions < 5 => {
                collisions += 1;
                attempt -= 1;
            }
            // counts if it happens again and again
            Err(ClusterEnd::Stalled(m)) => {
                ctx.count("stalls", 1);
                if std::env::var("VERIF_VERBOSE").is_ok() {
                    eprintln!("{m} {}", serde_json::to_string(c).unwrap());
                }
                last = m
            }
            Ok(t) => {
                let mut st = AxesStats::default();
                if let Err(m) = judge(&rows, c, t, &mut st) {
                    return Verdict::Fail(m);
                }
                ctx.count("channels with checked variance", st.variance_checked as u64);
                let mut lab = vec![
                    format!("nodes={}", c.nodes),
                    format!("threads={}", c.p.n_threads),
                    format!("channels={}", c.chans.len()),
                    format!("rest={}", c.rest),
                    format!("blank lines={}", c.layout.as_ref().map_or(0, |l| l.blanks)),
                ];
                if attempt > 1 {
                    lab.push("stalled before".into());
                }
                return pass(st.variance_checked > 0 && (c.rest > 0 || c.nodes > 2), lab);
            }
        }
    }
    Verdict::Fail(last)
}

pub fn c10() -> Check<Case> {
    Check {
        id: "C10",
        rule: "clusters of 2-6 processes on a CSV file of any layout, with at least a pattern length of rows per node, generated start gaps and delays at the stage borders; non-trivial: more than two nodes or rows that do not divide, and a channel whose captured variance could be compared with the eigenvalues of the whole series",
        strategy,
        eval,
        quick: 800,
        thorough: 20000,
        shards: 4,
        assumptions: &[
            "the observation points report what the stages hand over",
            "a cluster that stands still counts only if it does so in three attempts",
        ],
    }
}
