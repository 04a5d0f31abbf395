//! C19, C20: whole runs of a cluster of processes, against the models of the single stages.
use crate::driver::*;
use crate::exec::{run_cluster, ClusterEnd, ClusterRun};
use crate::gen::*;
use crate::oracle;
use crate::proto::*;
use crate::trace::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    Series { chans: Vec<Chan> },
    Traj { traj: Traj },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    p: P,
    nodes: usize,
    /// rows per node beyond pattern length + query length
    extra: usize,
    rest: usize,
    input: Input,
    /// (cluster node, moves): a trajectory stands still in this node's part after some moves
    #[serde(default)]
    still: Vec<(u8, u8)>,
    starts: Vec<u8>,
    /// (process, site, index, microseconds)
    delays: Vec<(u8, u8, u8, u32)>,
    #[serde(default)]
    layout: Option<super::io::Layout>,
}

fn strategy() -> BoxedStrategy<Case> {
    (
        prop_oneof![4 => 2usize..4, 1 => 4usize..7],
        prop_oneof![3 => 6usize..24, 1 => 24usize..60, 1 => Just(100usize)],
    )
        .prop_flat_map(|(nodes, rate)| {
            (
                params(14),
                prop_oneof![1 => 0usize..6, 3 => 6usize..70],
                0usize..nodes,
                prop_oneof![
                    1 => chans(3, false).prop_map(|chans| Input::Series { chans }),
                    2 => traj(rate, 2).prop_map(|traj| Input::Traj { traj }),
                ],
                prop_oneof![
                    4 => Just(vec![]),
                    1 => prop::collection::vec((0u8..nodes as u8, prop_oneof![2 => 0u8..3, 1 => 0u8..30]), 1..3)
                ],
                prop::collection::vec(prop_oneof![3 => Just(0u8), 2 => 1u8..60], nodes),
                prop_oneof![
                    1 => Just(vec![]),
                    1 => prop::collection::vec((0u8..nodes as u8, prop_oneof![0u8..7, 7u8..13], 0u8..4, prop_oneof![1u32..3000, 3000u32..60_000]), 1..8)
                ],
                prop::option::weighted(0.3, super::io::layout()),
            )
                .prop_map(move |(mut p, extra, rest, input, still, starts, delays, layout)| {
                    p.rate = rate;
                    p.n_threads = p.n_threads.min(4);
                    if let Input::Traj { .. } = input {
                        p.pattern_length = 4;
                        p.latent = 1;
                    }
                    Case { p, nodes, extra, rest, input, still, starts, delays, layout }
                })
        })
        .boxed()
}

pub struct Seen {
    pub nodes: Vec<Trace>,
    pub file: String,
    pub rows: usize,
}

impl Case {
    fn n(&self) -> usize {
        let (l, q) = (self.p.pattern_length, self.p.query_length);
        match &self.input {
            Input::Series { .. } => (l + q + self.extra) * self.nodes + self.rest.min(self.nodes - 1),
            Input::Traj { traj } => traj.points(self.p.rate).len() + l - 1,
        }
    }
    fn params(&self) -> Option<P> {
        let mut p = self.p.clone();
        if let Input::Traj { .. } = &self.input {
            let part = self.n() / self.nodes;
            if part < p.pattern_length + 2 {
                return None;
            }
            p.query_length = 1 + (p.query_length - 1) % (part - p.pattern_length - 1);
        }
        Some(p)
    }
    fn stand_still(&self, mut points: Vec<Vec<f32>>) -> Vec<Vec<f32>> {
        let part = self.n() / self.nodes;
        for (node, moves) in &self.still {
            let from = *node as usize * part + (*moves as usize).min(part - 1);
            let to = ((*node as usize + 1) * part).min(points.len());
            for i in from + 1..to {
                points[i] = points[from].clone();
            }
        }
        points
    }
    fn starts(&self) -> Vec<u64> {
        (0..self.nodes).map(|i| self.starts.get(i).copied().unwrap_or(0) as u64 + if i == 0 { 60 } else { 0 }).collect()
    }
    fn delays(&self) -> Vec<Vec<(String, usize, u64)>> {
        let mut d = vec![vec![]; self.nodes];
        for (node, site, index, us) in &self.delays {
            let (site, index) = match site % 14 {
                0 => ("loaded", 0),
                1 => ("components", *index as usize),
                2 => ("pca", *index as usize),
                3 => ("kde", *index as usize),
                4 => ("scoring", s2gpp::verif::ANY_INDEX + *index as usize),
                5 => ("column", *index as usize),
                6 => ("cuts", s2gpp::verif::ANY_INDEX + *index as usize),
                n => ("stage", n as usize),
            };
            d[*node as usize % self.nodes].push((site.to_string(), index, *us as u64));
        }
        d
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> Result<Seen, Verdict> {
    let n = c.n();
    let p = match c.params() {
        Some(p) => p,
        None => return Err(pass(false, vec!["too short".into()])),
    };
    let (rows, inject): (Vec<Vec<f32>>, _) = match &c.input {
        Input::Series { chans } => {
            let v: Vec<Vec<f32>> = chans.iter().map(|c| c.values(n)).collect();
            ((0..n).map(|i| v.iter().map(|c| c[i]).collect()).collect(), None)
        }
        Input::Traj { traj } => {
            (
                (0..n).map(|i| (0..traj.channels).map(|c| noise(c as u32 + 1, i)).collect()).collect(),
                Some(c.stand_still(traj.points(p.rate))),
            )
        }
    };
    let csv = ctx.file("cluster.csv");
    let out = ctx.file("scores.csv");
    let (text, p) = super::cluster::file(&p, &rows, &c.layout);
    std::fs::write(&csv, text).expect("write");
    let mut last = String::new();
    let mut attempt = 0;
    let mut collisions = 0;
    while attempt < 3 {
        attempt += 1;
        ctx.count("clusters started", 1);
        let _ = std::fs::remove_file(&out);
        let r = ClusterRun {
            p: &p,
            csv: &csv,
            k: c.nodes,
            starts: c.starts(),
            delays: c.delays(),
            inject: inject.clone(),
            whole: true,
            score_path: Some(out.clone()),
        };
        match run_cluster(&r) {
            Err(ClusterEnd::Timeout) => return Err(Verdict::Inconclusive("no answer in time".into())),
            Err(ClusterEnd::Stalled(m)) if m.contains("AddrInUse") && collisions < 5 => {
                collisions += 1;
                attempt -= 1;
            }
            // counts if it happens again and again
            Err(ClusterEnd::Stalled(m)) => {
                ctx.count("stalls", 1);
                if std::env::var("VERIF_VERBOSE").is_ok() {
                    eprintln!("STALL {m} {}", serde_json::to_string(c).unwrap());
                }
                last = m
            }
            Ok(t) => {
                let mut nodes: Vec<Trace> = t.into_iter().map(Trace::new).collect();
                for (j, t) in nodes.iter().enumerate() {
                    for (what, ok) in [
                        ("points", t.points.as_ref().map(|p| !p.is_empty()).unwrap_or(false)),
                        ("transitions", t.transitions.is_some()),
                        ("cuts", t.intersections.is_some()),
                        ("nodes", t.nodes.is_some()),
                        ("edges", t.edges.is_some() && t.scoring_edges.is_some()),
                        ("scores", t.score.is_some() || j > 0),
                    ] {
                        if !ok {
                            return Err(Verdict::Fail(format!("process {j} ended without {what}")));
                        }
                    }
                }
                nodes.sort_by_key(|t| t.points.as_ref().unwrap()[0].0);
                let file = std::fs::read_to_string(&out).unwrap_or_default();
                return Ok(Seen { nodes, file, rows: n });
            }
        }
    }
    Err(Verdict::Fail(last))
}

/// What the nodes recorded, put together.
fn merged(s: &Seen) -> Trace {
    let mut m = Trace::default();
    fn cat<T: Clone>(s: &Seen, f: impl Fn(&Trace) -> &Option<Vec<T>>) -> Vec<T> {
        s.nodes.iter().flat_map(|t| f(t).clone().unwrap()).collect()
    }
    m.points = Some(cat(s, |t| &t.points));
    let mut tr = cat(s, |t| &t.transitions);
    tr.sort_by_key(|t| t.0 .0);
    m.transitions = Some(tr);
    m.intersections = Some(cat(s, |t| &t.intersections));
    m.nodes = Some(cat(s, |t| &t.nodes));
    m.edges = Some(cat(s, |t| &t.edges));
    m.scoring_edges = Some(cat(s, |t| &t.scoring_edges));
    m
}

fn judge_graph(c: &Case, s: &Seen) -> Result<(usize, usize), String> {
    let rate = c.p.rate;
    let m = merged(s);
    let points = m.points.as_ref().unwrap();
    if points.iter().enumerate().any(|(i, p)| i != p.0) || points.len() != s.rows + 1 - c.p.pattern_length {
        return Err("the nodes' points are not those of the series".into());
    }
    oracle::judge_segments(points, rate)?;
    let trans = m.transitions.as_ref().unwrap();
    let starts: Vec<usize> = s.nodes.iter().skip(1).map(|t| t.points.as_ref().unwrap()[0].0).collect();
    oracle::judge_transitions_of_parts(points, trans, rate, c.p.self_correction, &starts)?;
    let cuts = m.intersections.as_ref().unwrap();
    oracle::judge_intersections(trans, cuts, rate)?;
    let nodes = m.nodes.as_ref().unwrap();
    oracle::judge_nodes(cuts, nodes, rate)?;
    // each segment is one node's business
    let mut owner = vec![None; rate];
    for (j, t) in s.nodes.iter().enumerate() {
        for n in t.nodes.as_ref().unwrap() {
            match owner[n.0] {
                None => owner[n.0] = Some(j),
                Some(o) if o != j => return Err(format!("segment {} is with the cluster nodes {o} and {j}", n.0)),
                _ => {}
            }
        }
    }
    let visits = oracle::visits(trans, nodes, rate)?;
    let mut want: Vec<Edge> = visits.windows(2).map(|w| (w[0], w[1])).collect();
    let crossing = want.iter().filter(|e| owner[e.0 .0] != owner[e.1 .0]).count();
    let (mut got, key) = (m.edges.clone().unwrap(), |e: &Edge| (e.1 .2, e.0 .2, e.0 .0, e.1 .0));
    got.sort_by_key(key);
    want.sort_by_key(key);
    if let Some(e) = want.iter().find(|e| !got.contains(e)) {
        return Err(format!("the edge {e:?} (segment, node, time step) of the path is missing; {crossing} edges lead from one cluster node to another"));
    }
    if let Some(e) = got.iter().find(|e| !want.contains(e)) {
        return Err(format!("the edge {e:?} (segment, node, time step) is not on the path"));
    }
    if got != want {
        return Err("an edge of the path occurs more often than it is traversed".into());
    }
    Ok((visits.len(), crossing))
}

fn judge_scores(c: &Case, s: &Seen) -> Result<bool, String> {
    let m = merged(s);
    let n_points = m.points.as_ref().unwrap().len();
    let visits = oracle::visits(m.transitions.as_ref().unwrap(), m.nodes.as_ref().unwrap(), c.p.rate)?;
    let path: Vec<Edge> = visits.windows(2).map(|w| (w[0], w[1])).collect();
    let first = s.nodes[0].score.as_ref().unwrap();
    for (j, t) in s.nodes.iter().enumerate().skip(1) {
        // a sub node may be told to stop before it has the scores, too
        if t.score.is_some() && Bits::new(t.score.as_ref().unwrap()).0 != Bits::new(first).0 {
            return Err(format!("cluster node {j} has other scores than the main node"));
        }
    }
    let q = c.params().unwrap().query_length;
    let r = oracle::judge_score(&path, n_points, q, first)?;
    let file = super::io::parse_scores(&s.file)?;
    if Bits::new(&file).0 != Bits::new(first).0 {
        return Err("the score file of the main node does not hold the scores".into());
    }
    Ok(!r.constant)
}

fn labels(c: &Case) -> Vec<String> {
    vec![
        format!("nodes={}", c.nodes),
        format!("threads={}", c.p.n_threads),
        format!("self_correction={}", c.p.self_correction),
        if let Input::Traj { .. } = c.input { "trajectory".into() } else { "series".into() },
    ]
}

fn eval_c19(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = match run(c, ctx) {
        Ok(s) => s,
        Err(v) => return v,
    };
    match judge_graph(c, &s) {
        Ok((visits, crossing)) => pass(visits > 2 && crossing > 0, labels(c)),
        Err(m) => Verdict::Fail(m),
    }
}

fn eval_c20(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = match run(c, ctx) {
        Ok(s) => s,
        Err(v) => return v,
    };
    match judge_scores(c, &s) {
        Ok(nontrivial) => pass(nontrivial, labels(c)),
        Err(m) => Verdict::Fail(m),
    }
}

pub fn c19() -> Check<Case> {
    Check {
        id: "C19",
        rule: "clusters of 2-6 processes on a series or a generated trajectory; non-trivial: an edge leads from one cluster node to another",
        strategy,
        eval: eval_c19,
        quick: 400,
        thorough: 6000,
        shards: 8,
        assumptions: &["a cluster that stands still counts only if it does so in three attempts"],
    }
}

pub fn c20() -> Check<Case> {
    Check {
        id: "C20",
        rule: "clusters of 2-6 processes on a series or a generated trajectory; non-trivial: the expected scores are not constant",
        strategy,
        eval: eval_c20,
        quick: 400,
        thorough: 6000,
        shards: 8,
        assumptions: &["a cluster that stands still counts only if it does so in three attempts"],
    }
}
