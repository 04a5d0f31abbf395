//! Score contract of a local run.
use crate::driver::*;
use crate::exec::Run;
use crate::gen::*;
use crate::proto::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    s: SeriesCase,
    column_major: bool,
    delays: Vec<(u8, u16, u16)>,
}

fn strategy() -> BoxedStrategy<Case> {
    (
        prop_oneof![300 => series_case(true), 1 => long_series(true, 100_000)],
        prop::bool::weighted(0.1),
        delay_list(),
    )
        .prop_map(|(s, column_major, delays)| Case { s, column_major, delays })
        .boxed()
}

pub fn judge_score(n: usize, p: &P, score: &[f32]) -> Result<bool, String> {
    let want = n + 1 - p.pattern_length - p.query_length;
    if score.len() != want {
        return Err(format!("{} scores returned, expected {want}", score.len()));
    }
    for (i, s) in score.iter().enumerate() {
        if !s.is_finite() || *s < 0.0 || *s > 1.0 {
            return Err(format!("score {i} is {s}, outside of [0, 1]"));
        }
    }
    let lo = score.iter().copied().fold(f32::INFINITY, f32::min);
    let hi = score.iter().copied().fold(f32::NEG_INFINITY, f32::max);
    if lo == hi {
        if lo != 0.0 {
            return Err(format!("all scores are {lo} instead of 0"));
        }
        return Ok(false);
    }
    if lo != 0.0 || (hi - 1.0).abs() > 1e-6 {
        return Err(format!("scores range over [{lo}, {hi}] instead of [0, 1]"));
    }
    Ok(true)
}

fn eval(c: &Case, ctx: &mut Ctx) -> Verdict {
    let rows = c.s.rows();
    let mut req = Request::memory(&c.s.p, &rows);
    if c.column_major {
        req.source = Source::MemoryF(rows.clone());
    }
    req.want_trace = false;
    req.delays = delays(&c.delays);
    let score = match ok_score(ctx.exec.run(&req)) {
        Ok(s) => s,
        Err(v) => return v,
    };
    match judge_score(rows.len(), &c.s.p, &score) {
        Err(m) => Verdict::Fail(m),
        Ok(varied) => {
            let mut l = c.s.labels();
            l.push(format!("varied score={varied}"));
            l.push(format!("column major={}", c.column_major));
            l.push(format!("delayed helpers={}", !c.delays.is_empty()));
            pass(varied, l)
        }
    }
}

pub fn delays(d: &[(u8, u16, u16)]) -> Vec<(String, usize, u64)> {
    let mut v = vec![];
    for (site, idx, us) in d {
        let site = ["pca", "kde", "scoring", "column", "cuts"][*site as usize % 5];
        let (idx, us) = match (*idx as usize, site) {
            // every index of the site, each its own share
            (i, "kde") if i >= 1000 => (s2gpp::verif::ANY_INDEX + i, *us as u64 / 4),
            (i, _) if i >= 1000 => (s2gpp::verif::ANY_INDEX + i, *us as u64),
            // there are at most eight PCA helpers, and the first collects from the others
            (i, "pca") => ((i % 12).saturating_sub(4), *us as u64),
            (i, _) => (i, *us as u64),
        };
        v.push((site.to_string(), idx, us));
    }
    v
}

/// The score of a run that has to return one.
pub fn ok_score(r: Run) -> Result<Vec<f32>, Verdict> {
    let resp = ok_response(r)?;
    match resp.outcome {
        Outcome::Ok(Some(s)) => Ok(s.f()),
        _ => Err(Verdict::Fail("no score was returned".into())),
    }
}

pub fn ok_response(r: Run) -> Result<Box<Response>, Verdict> {
    match r {
        Run::Done(resp) => {
            if !matches!(resp.outcome, Outcome::Ok(_)) || !resp.panics.is_empty() {
                return Err(Verdict::Fail(format!("the run {}", Run::Done(resp).describe())));
            }
            Ok(resp)
        }
        Run::Timeout => Err(Verdict::Inconclusive("no answer in time".into())),
        r => Err(Verdict::Fail(r.describe())),
    }
}

pub fn check() -> Check<Case> {
    Check {
        id: "C01",
        rule: "parameters, channel recipes and helper delays are drawn independently; non-trivial: the run returned a score that is not constant",
        strategy,
        eval,
        quick: 2400,
        thorough: 60000,
        shards: 8,
        assumptions: &["a process whose threads all sleep without a context switch for 10 s is deadlocked"],
    }
}
