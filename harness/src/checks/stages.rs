//! Checks of single stages, on trajectories and on whole series: C02, C05, C06, C07, C08.
use super::*;
use crate::driver::*;
use crate::gen::*;
use crate::oracle;
use crate::proto::*;
use crate::trace::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Traj(TrajCase),
    Series(SeriesCase, Vec<(u8, u16, u16)>),
}

pub fn strategy() -> BoxedStrategy<Case> {
    prop_oneof![
        3 => traj_case().prop_map(Case::Traj),
        1 => (series_case(false), delay_list()).prop_map(|(s, d)| Case::Series(s, d)),
    ]
    .boxed()
}

struct Seen {
    p: P,
    t: Trace,
    score: Vec<f32>,
}

pub fn request(c: &Case) -> Option<Request> {
    match c {
        Case::Traj(t) => t.request().map(|(r, _)| r),
        Case::Series(s, d) => {
            let mut r = Request::memory(&s.p, &s.rows());
            r.delays = delays(d);
            Some(r)
        }
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> Result<Seen, Verdict> {
    let req = match request(c) {
        Some(r) => r,
        None => return Err(pass(false, vec!["too short".into()])),
    };
    let resp = ok_response(ctx.exec.run(&req))?;
    let score = match &resp.outcome {
        Outcome::Ok(Some(s)) => s.f(),
        _ => return Err(Verdict::Fail("no score was returned".into())),
    };
    let t = Trace::new(resp.trace);
    Ok(Seen { p: req.p, t, score })
}

macro_rules! need {
    ($e:expr, $what:expr) => {
        match $e.as_ref() {
            Some(x) => x,
            None => return Verdict::Fail(format!("the run returned without {}", $what)),
        }
    };
}

macro_rules! judge {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(m) => return Verdict::Fail(m),
        }
    };
}

pub fn kind(c: &Case) -> Vec<String> {
    match c {
        Case::Traj(t) => vec![
            format!("trajectory, {} channels", t.traj.channels),
            format!("rate odd={}", t.rate % 2 == 1),
            format!("threads={}", t.n_threads),
        ],
        Case::Series(s, _) => {
            vec![format!("series, {} channels", s.chans.len()), format!("threads={}", s.p.n_threads)]
        }
    }
}

fn eval_c02(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = match run(c, ctx) {
        Ok(s) => s,
        Err(v) => return v,
    };
    let edges = need!(s.t.scoring_edges, "edges");
    let points = need!(s.t.points, "points");
    let m = judge!(oracle::judge_score(edges, points.len(), s.p.query_length, &s.score));
    let mut l = kind(c);
    if m.empty_windows > 0 {
        l.push("with empty windows".into());
        let w = oracle::windows(edges, points.len(), s.p.query_length);
        let per = w.len() / s.p.n_threads.min(w.len()).max(1);
        if (1..s.p.n_threads).any(|k| w.get(k * per).map(|x| x.0 == x.1).unwrap_or(false)) {
            l.push("empty window at a chunk start".into());
        }
    }
    let mut keys: Vec<_> = edges.iter().map(|e| (e.0 .0, e.0 .1, e.1 .0, e.1 .1)).collect();
    keys.sort();
    let n = keys.len();
    keys.dedup();
    if keys.len() < n {
        l.push("with repeated edges".into());
    }
    if edges.iter().any(|e| (e.0 .0, e.0 .1) == (e.1 .0, e.1 .1)) {
        l.push("with a self loop".into());
    }
    if m.constant {
        l.push("constant".into());
    }
    pass(!m.constant, l)
}

fn eval_c05(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = match run(c, ctx) {
        Ok(s) => s,
        Err(v) => return v,
    };
    let points = need!(s.t.points, "points");
    let trans = need!(s.t.transitions, "transitions");
    judge!(oracle::judge_segments(points, s.p.rate));
    if let Case::Traj(t) = c {
        let want = t.traj.points(t.rate);
        if points.len() != want.len() || points.iter().zip(&want).any(|(a, b)| &a.1 != b) {
            return Verdict::Inconclusive("the trajectory did not arrive".into());
        }
    }
    let r = judge!(oracle::judge_transitions(points, trans, s.p.rate, s.p.self_correction));
    let mut l = kind(c);
    l.push(format!("mirrored={}", r.mirrored));
    if r.wraps > 0 {
        l.push("wraps around".into());
    }
    if r.backward > 0 {
        l.push("moves backward".into());
    }
    if r.valid == r.backward && r.valid > 0 {
        l.push("as many forward as backward".into());
    }
    pass(r.valid > 0 && r.backward > 0, l)
}

fn eval_c06(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = match run(c, ctx) {
        Ok(s) => s,
        Err(v) => return v,
    };
    let trans = need!(s.t.transitions, "transitions");
    let cuts = need!(s.t.intersections, "intersections");
    let r = judge!(oracle::judge_intersections(trans, cuts, s.p.rate));
    ctx.count("cuts", r.cuts as u64);
    ctx.count("cuts whose place was checked", r.coords_checked as u64);
    let mut l = kind(c);
    if r.wraps > 0 {
        l.push("wraps around".into());
    }
    if r.worst > 0.05 {
        l.push("place off by more than 5 % of the tolerance".into());
    }
    pass(r.multi > 0 && r.coords_checked > 0, l)
}

fn eval_c07(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = match run(c, ctx) {
        Ok(s) => s,
        Err(v) => return v,
    };
    let cuts = need!(s.t.intersections, "intersections");
    let nodes = need!(s.t.nodes, "nodes");
    let r = judge!(oracle::judge_nodes(cuts, nodes, s.p.rate));
    ctx.count("segments", r.segments as u64);
    ctx.count("segments decided", r.decided as u64);
    ctx.count("segments with several nodes", r.split as u64);
    let mut l = kind(c);
    if r.single > 0 {
        l.push("segment with a single cut".into());
    }
    if r.split > 0 {
        l.push("segment with several nodes".into());
    }
    pass(r.split > 0, l)
}

fn eval_c08(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = match run(c, ctx) {
        Ok(s) => s,
        Err(v) => return v,
    };
    let trans = need!(s.t.transitions, "transitions");
    let nodes = need!(s.t.nodes, "nodes");
    let edges = need!(s.t.edges, "edges");
    let v = judge!(oracle::judge_edges(trans, nodes, edges, s.p.rate));
    let wraps = trans.iter().filter(|(a, b)| b.2 < a.2).count();
    let mut l = kind(c);
    if wraps > 0 {
        l.push("wraps around".into());
    }
    if trans.first().map(|(a, b)| b.2 < a.2).unwrap_or(false) {
        l.push("first transition wraps".into());
    }
    if trans.windows(2).any(|w| w[1].0 .0 > w[0].0 .0 + 1) {
        l.push("with idle steps".into());
    }
    pass(v > 2 && wraps > 0, l)
}


macro_rules! stage {
    ($f:ident, $id:expr, $e:ident, $q:expr, $r:expr) => {
        pub fn $f() -> Check<Case> {
            Check {
                id: $id,
                rule: $r,
                strategy,
                eval: $e,
                quick: $q,
                thorough: $q * 25,
                shards: 8,
                assumptions: &["the observation points report what the stages hand over"],
            }
        }
    };
}
stage!(c02, "C02", eval_c02, 4000, "3 of 4 cases replace the embedded points by a generated trajectory (steady turns, jumps around half a turn, backward moves, standstill, axis points, several radii, 1-3 channels), the others are whole series; non-trivial: the expected score is not constant");
stage!(c05, "C05", eval_c05, 4000, "3 of 4 cases replace the embedded points by a generated trajectory (steady turns, jumps around half a turn, backward moves, standstill, axis points, several radii, 1-3 channels), the others are whole series; non-trivial: moves forward and moves backward both occur");
stage!(c06, "C06", eval_c06, 4000, "3 of 4 cases replace the embedded points by a generated trajectory (steady turns, jumps around half a turn, backward moves, standstill, axis points, several radii, 1-3 channels), the others are whole series; non-trivial: a transition crosses several segments and the place of a cut could be checked");
stage!(c07, "C07", eval_c07, 4000, "3 of 4 cases replace the embedded points by a generated trajectory (steady turns, jumps around half a turn, backward moves, standstill, axis points, several radii, 1-3 channels), the others are whole series; non-trivial: a segment has several nodes and its grouping is decided by the model");
stage!(c08, "C08", eval_c08, 4000, "3 of 4 cases replace the embedded points by a generated trajectory (steady turns, jumps around half a turn, backward moves, standstill, axis points, several radii, 1-3 channels), the others are whole series; non-trivial: at least three visits and a transition across segment 0");
