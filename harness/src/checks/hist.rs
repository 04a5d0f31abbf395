//! C13 (independence of scheduling) and C14 (independence of earlier runs).
use super::io::*;
use super::*;
use crate::driver::*;
use crate::gen::*;
use crate::proto::*;
use crate::trace::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    Traj(TrajCase),
    Series(SeriesCase),
}

impl Input {
    fn request(&self) -> Option<Request> {
        match self {
            Input::Traj(t) => t.request().map(|x| x.0),
            Input::Series(s) => Some(Request::memory(&s.p, &s.rows())),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SchedCase {
    input: Input,
    /// (threads, delays) of the other runs
    others: Vec<(usize, Vec<(u8, u16, u16)>)>,
}

fn run(req: &Request, ctx: &mut Ctx) -> Result<(Vec<f32>, Trace), Verdict> {
    let resp = ok_response(ctx.exec.run(req))?;
    let s = match &resp.outcome {
        Outcome::Ok(Some(s)) => s.f(),
        _ => return Err(Verdict::Fail("no score was returned".into())),
    };
    Ok((s, Trace::new(resp.trace)))
}

/// Graph up to the names of nodes: the sequence of (segment, group, time step).
fn graph(t: &Trace) -> Option<Vec<(usize, usize, usize, usize, usize, usize)>> {
    let e = t.edges.as_ref()?;
    let mut names: std::collections::HashMap<(usize, usize), usize> = Default::default();
    let mut name = |n: &Node| {
        let k = names.len();
        *names.entry((n.0, n.1)).or_insert(k)
    };
    Some(e.iter().map(|(a, b)| (a.0, name(a), a.2, b.0, name(b), b.2)).collect())
}

fn points_of(t: &Trace) -> Vec<(usize, Vec<u32>, usize)> {
    t.points
        .iter()
        .flatten()
        .map(|(i, c, s)| (*i, c.iter().map(|x| x.to_bits()).collect(), *s))
        .collect()
}

/// Whether the axes of the series are well determined, so that rounding cannot turn them.
fn well_conditioned(t: &Trace) -> bool {
    use ndarray_linalg::{Eigh, UPLO};
    let l = match &t.loaded {
        Some(l) => l,
        None => return false,
    };
    let ps = &l.phase_space;
    let (m, w, d) = (ps.shape[0], ps.shape[1], ps.shape[2]);
    for c in 0..d {
        let x = ndarray::Array2::from_shape_fn((m, w), |(i, j)| ps.at3(i, j, c) as f64);
        let maxabs = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        let xc = &x - &x.mean_axis(ndarray::Axis(0)).unwrap();
        let (ev, _) = match (xc.t().dot(&xc) / m as f64).eigh(UPLO::Lower) {
            Ok(e) => e,
            Err(_) => return false,
        };
        let mut ev = ev.to_vec();
        ev.sort_by(|a, b| b.partial_cmp(a).unwrap());
        ev.push(0.0);
        if (0..3).any(|k| ev[k] - ev[k + 1] < 0.02 * ev[0]) || ev[0].sqrt() < 1e-3 * maxabs {
            return false;
        }
        let comp = match t.components.get(c) {
            Some(x) => &x.0,
            None => return false,
        };
        if (0..3).any(|k| comp.at2(k, 0).abs() < 0.02) {
            return false;
        }
    }
    true
}

fn eval_c13(c: &SchedCase, ctx: &mut Ctx) -> Verdict {
    let mut req = match c.input.request() {
        Some(r) => r,
        None => return pass(false, vec!["too short".into()]),
    };
    req.p.n_threads = 1;
    req.delays = vec![];
    let (a, ta) = match run(&req, ctx) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let (b, _) = match run(&req, ctx) {
        Ok(x) => x,
        Err(v) => return v,
    };
    if let Some(d) = same_bits(&b, &a) {
        return Verdict::Fail(format!("two runs with one thread differ: {d}"));
    }
    let mut labels = vec![];
    let mut seen = vec![(graph(&ta), a.clone(), 1)];
    let injected = req.inject.is_some();
    let cond = !injected && well_conditioned(&ta);
    let scale = ta.points.iter().flatten().flat_map(|p| p.1.iter()).fold(0.0f32, |a, b| a.max(b.abs()));
    let mut same = 0;
    for (threads, del) in &c.others {
        let mut r = req.clone();
        r.p.n_threads = *threads;
        r.delays = delays(del);
        let (s, t) = match run(&r, ctx) {
            Ok(x) => x,
            Err(v) => return v,
        };
        if injected {
            if points_of(&t) != points_of(&ta) {
                return Verdict::Inconclusive("the trajectory did not arrive".into());
            }
            if t.transitions != ta.transitions {
                return Verdict::Fail(format!("other transitions with {threads} threads"));
            }
            let key = |x: &Trace| {
                let mut v: Vec<(usize, usize, Vec<u32>)> = x
                    .intersections
                    .iter()
                    .flatten()
                    .map(|(s, i, c)| (*s, *i, c.iter().map(|x| x.to_bits()).collect()))
                    .collect();
                v.sort();
                v
            };
            if key(&t) != key(&ta) {
                return Verdict::Fail(format!("other cuts with {threads} threads"));
            }
        } else if cond {
            labels.push("points compared".into());
            for (p, q) in ta.points.iter().flatten().zip(t.points.iter().flatten()) {
                if p.0 != q.0 || p.1.iter().zip(&q.1).any(|(x, y)| !((x - y).abs() <= 5e-3 * scale)) {
                    return Verdict::Fail(format!(
                        "point {} is at {:?} with one thread, at {:?} with {threads}",
                        p.0, p.1, q.1
                    ));
                }
            }
            if ta.points.as_ref().map(|p| p.len()) != t.points.as_ref().map(|p| p.len()) {
                return Verdict::Fail(format!("another number of points with {threads} threads"));
            }
        }
        let g = graph(&t);
        for (og, os, ot) in &seen {
            if *og == g {
                same += 1;
                if let Some(d) = same_bits(&s, os) {
                    return Verdict::Fail(format!(
                        "the same graph is scored differently with {threads} and {ot} threads: {d}"
                    ));
                }
                break;
            }
        }
        seen.push((g, s, *threads));
        labels.push(format!("threads={threads}"));
    }
    labels.push(format!("injected={injected}"));
    labels.push(format!("graphs equal={}", same > 0));
    pass(same > 0 && a.iter().any(|x| *x != 0.0), labels)
}

pub fn c13() -> Check<SchedCase> {
    Check {
        id: "C13",
        rule: "one trajectory or series, run twice with one thread and then with several threads and delayed helpers; non-trivial: a run with several threads saw the same graph and the scores are not all 0",
        strategy: || {
            (
                prop_oneof![1 => traj_case().prop_map(Input::Traj), 1 => series_case(false).prop_map(Input::Series)],
                prop::collection::vec(
                    (2usize..=8, prop::collection::vec(one_delay(), 0..6)),
                    1..4,
                ),
            )
                .prop_map(|(mut input, others)| {
                    // several runs each: no long ones
                    match &mut input {
                        Input::Traj(t) => t.traj.repeat = t.traj.repeat.min(300),
                        Input::Series(s) => s.extra = s.extra.min(2500),
                    }
                    SchedCase { input, others }
                })
                .boxed()
        },
        eval: eval_c13,
        quick: 1500,
        thorough: 30000,
        shards: 8,
        assumptions: &["delays at the helper entry points reach the completion orders that matter"],
    }
}

// ---------------------------------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    s: SeriesCase,
    file: Option<Layout>,
    explain: bool,
    repeat: bool,
}

struct Run {
    scores: Vec<f32>,
    trace: Trace,
    contributions: Option<String>,
}

fn one(st: &Step, ctx: &mut Ctx) -> Result<Run, Verdict> {
    let out = ctx.file("out.csv");
    let con = ctx.file("contributions.csv");
    for f in [&out, &con] {
        let _ = std::fs::remove_file(f);
    }
    let mut p = st.s.p.clone();
    p.explainability = st.explain;
    let mut req = match &st.file {
        Some(l) => {
            let (text, start, end) = l.write(&st.s.rows());
            let csv = ctx.file("in.csv");
            std::fs::write(&csv, text).expect("write input");
            p.column_start = start;
            p.column_end = end;
            let mut r = Request::memory(&p, &[]);
            r.source = Source::File(csv);
            r
        }
        None => Request::memory(&p, &st.s.rows()),
    };
    req.score_path = (st.file.is_some() || st.explain).then(|| out.clone());
    req.contribution_path = st.explain.then(|| con.clone());
    let resp = ok_response(ctx.exec.run(&req))?;
    let read = |f: &str| {
        std::fs::read_to_string(f).map_err(|e| Verdict::Fail(format!("{f} cannot be read: {e}")))
    };
    let scores = match (&st.file, &resp.outcome) {
        (Some(_), _) => parse_scores(&read(&out)?).map_err(Verdict::Fail)?,
        (None, Outcome::Ok(Some(s))) => s.f(),
        _ => return Err(Verdict::Fail("no score was returned".into())),
    };
    let contributions = if st.explain { Some(read(&con)?) } else { None };
    Ok(Run { scores, trace: Trace::new(resp.trace), contributions })
}

fn other_points(a: &Trace, b: &Trace) -> Option<String> {
    let scale = a.points.iter().flatten().flat_map(|p| p.1.iter()).fold(0.0f32, |a, b| a.max(b.abs()));
    let (pa, pb) = (a.points.as_ref()?, b.points.as_ref()?);
    if pa.len() != pb.len() {
        return Some(format!("{} points against {}", pb.len(), pa.len()));
    }
    pa.iter()
        .zip(pb)
        .find(|(p, q)| p.0 != q.0 || p.1.iter().zip(&q.1).any(|(x, y)| !((x - y).abs() <= 5e-3 * scale)))
        .map(|(p, q)| format!("point {} is at {:?} against {:?}", q.0, q.1, p.1))
}

/// A run like the one before it, with one difference that is taken from `other`.
fn related(before: &Step, other: &Step, what: u8) -> Step {
    let mut r = before.clone();
    let n = r.s.n();
    let pl = r.s.p.pattern_length;
    match what {
        // other values of the same shape
        0 => r.s.chans = (0..r.s.chans.len()).map(|k| other.s.chans[k % other.s.chans.len()].clone()).collect(),
        1 => r.s.p.latent = 1 + other.s.p.latent % (pl - 3),
        2 => {
            r.s.p.query_length = other.s.p.query_length.min(n - pl);
            r.s.extra = n - pl - r.s.p.query_length;
        }
        3 => r.s.p.rate = other.s.p.rate,
        4 => r.s.p.self_correction = !r.s.p.self_correction,
        5 => r.s.chans = other.s.chans.clone(),
        6 => r.s.chans.iter_mut().for_each(|c| c.exp += 3),
        7 => r.s.p.n_threads = other.s.p.n_threads,
        8 => r.file = other.file.clone(),
        9 => r.explain = !r.explain,
        10 => r.s.extra = other.s.extra,
        _ => {
            let pl = other.s.p.pattern_length.min(n - r.s.p.query_length).max(4);
            r.s.p.pattern_length = pl;
            r.s.p.latent = r.s.p.latent.min(pl - 3);
            r.s.extra = n.saturating_sub(pl + r.s.p.query_length);
        }
    }
    r
}

fn eval_c14(steps: &Vec<Step>, ctx: &mut Ctx) -> Verdict {
    let mut alone = vec![];
    for st in steps {
        ctx.exec.fresh();
        match one(st, ctx) {
            Ok(x) => alone.push(x),
            Err(v) => return v,
        }
    }
    ctx.exec.fresh();
    let mut compared = 0;
    for (k, st) in steps.iter().enumerate() {
        for _ in 0..1 + usize::from(st.repeat) {
            let r = match one(st, ctx) {
                Ok(x) => x,
                Err(Verdict::Fail(m)) => {
                    return Verdict::Fail(format!("run {k} of the sequence, which works alone: {m}"))
                }
                Err(v) => return v,
            };
            let t = &r.trace;
            let same_graph = graph(t) == graph(&alone[k].trace);
            if st.s.p.n_threads == 1 || same_graph {
                compared += 1;
                if let Some(d) = same_bits(&r.scores, &alone[k].scores) {
                    return Verdict::Fail(format!("run {k} of the sequence against the run alone: {d}"));
                }
            }
            if st.s.p.n_threads == 1 && r.contributions != alone[k].contributions {
                return Verdict::Fail(format!("run {k} of the sequence has other contributions than alone"));
            }
            if st.s.p.n_threads > 1 && well_conditioned(t) {
                if let Some(m) = other_points(&alone[k].trace, t) {
                    return Verdict::Fail(format!("run {k} of the sequence against the run alone: {m}"));
                }
            }
            let (x, y) = (t.loaded.as_ref(), alone[k].trace.loaded.as_ref());
            let key = |l: Option<&Loaded>| {
                l.map(|l| (l.n, l.phase_space.shape.clone(), l.phase_space.v.0.clone(), l.data_ref.v.0.clone()))
            };
            if key(x) != key(y) {
                return Verdict::Fail(format!("run {k} of the sequence loads other data than alone"));
            }
        }
    }
    ctx.exec.fresh();
    let files = steps.iter().filter(|s| s.file.is_some()).count();
    pass(
        compared > 1 && steps.len() > 1,
        vec![
            format!("runs={}", steps.len()),
            format!("files={files}"),
            format!("mixed={}", files > 0 && files < steps.len()),
        ],
    )
}

pub fn c14() -> Check<Vec<Step>> {
    Check {
        id: "C14",
        rule: "two to fifteen runs with different series, parameters and input kinds, or one difference from the run before, each alone in a fresh process and then all in one process; non-trivial: several runs whose scores were compared",
        strategy: || {
            let step = (
                series_case(false),
                prop::option::weighted(0.4, layout()),
                prop::bool::weighted(0.25),
                prop::bool::weighted(0.3),
                prop::bool::weighted(0.7),
            )
                .prop_map(|(mut s, file, explain, repeat, single)| {
                    if single {
                        s.p.n_threads = 1;
                    }
                    s.extra = s.extra.min(200);
                    Step { s, file, explain, repeat }
                });
            let step = (step, prop::option::weighted(0.5, 0u8..12)).boxed();
            prop_oneof![
                30 => prop::collection::vec(step.clone(), 2..6),
                1 => prop::collection::vec(step, 6..16),
            ]
                .prop_map(|v| {
                    let mut out: Vec<Step> = vec![];
                    for (s, like) in v {
                        out.push(match (out.last(), like) {
                            (Some(b), Some(w)) => related(b, &s, w),
                            _ => s,
                        });
                    }
                    out
                })
                .boxed()
        },
        eval: eval_c14,
        quick: 900,
        thorough: 10000,
        shards: 8,
        assumptions: &[],
    }
}
