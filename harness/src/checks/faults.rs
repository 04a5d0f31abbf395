//! C21: a program run that cannot deliver its result says so.
use super::config::run_program;
use super::io::{layout, Layout};
use crate::driver::*;
use crate::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Place {
    NoSuchDirectory,
    Directory,
    FullDevice,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    MissingFile,
    InputIsDirectory,
    /// no row: an empty file, only a header, only empty lines
    NoRows(u8),
    /// a selected field that is no number: row and column (in 1/1000), which text
    BadField(u16, u16, u8),
    /// a row with one field too few or too many
    RaggedRow(u16, bool),
    NotUtf8(u16, u16),
    /// no room for a single window
    QueryTooLong(u8),
    PatternTooLong(u8),
    NoColumns(u8),
    /// no threads, an empty query, no segments, an empty pattern, a convolution without room
    Settings(u8),
    Scores(Place),
    Contributions(Place),
    ExplainCluster(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    s: SeriesCase,
    l: Layout,
    fault: Fault,
}

const NO_NUMBERS: [&str; 20] = [
    "abc", "1.2.3", "--1", "0x10", "1e", "1 2", "1_000", "½", "one", "?", "1;5", ".", "+", "", "NaN", "-nan", "inf",
    "-inf", "Infinity", "1e39",
];

fn strategy() -> BoxedStrategy<Case> {
    fn place() -> BoxedStrategy<Place> {
        prop_oneof![Just(Place::NoSuchDirectory), Just(Place::Directory), Just(Place::FullDevice)].boxed()
    }
    // the first and the last row are treated apart by the reader
    fn row() -> BoxedStrategy<u16> {
        prop_oneof![1 => Just(0u16), 1 => Just(1000), 4 => 0u16..=1000].boxed()
    }
    let fault = prop_oneof![
        1 => Just(Fault::MissingFile),
        1 => Just(Fault::InputIsDirectory),
        1 => (0u8..3).prop_map(Fault::NoRows),
        6 => (row(), 0u16..1000, 0u8..20).prop_map(|(r, c, t)| Fault::BadField(r, c, t)),
        3 => (row(), any::<bool>()).prop_map(|(r, m)| Fault::RaggedRow(r, m)),
        1 => (row(), 0u16..1000).prop_map(|(r, c)| Fault::NotUtf8(r, c)),
        2 => (0u8..40).prop_map(Fault::QueryTooLong),
        1 => (0u8..40).prop_map(Fault::PatternTooLong),
        1 => (0u8..5).prop_map(Fault::NoColumns),
        1 => (0u8..5).prop_map(Fault::Settings),
        3 => place().prop_map(Fault::Scores),
        3 => place().prop_map(Fault::Contributions),
        1 => (2u8..5).prop_map(Fault::ExplainCluster),
    ];
    (series_case(false), layout(), fault).prop_map(|(s, l, fault)| Case { s, l, fault }).boxed()
}

fn pick(at: u16, n: usize) -> usize {
    (at as usize * (n - 1) + 500) / 1000
}

fn eval(c: &Case, ctx: &mut Ctx) -> Verdict {
    let rows = c.s.rows();
    let (n, d) = (rows.len(), rows[0].len());
    let (good_text, start, end) = c.l.write(&rows);
    let mut cells = c.l.cells(&rows);
    let total = cells[0].len();
    let good = ctx.file("good.csv");
    let bad = ctx.file("bad.csv");
    let scores = ctx.file("scores.csv");
    let contributions = ctx.file("contributions.csv");
    for f in [&bad, &scores, &contributions] {
        let _ = std::fs::remove_file(f);
    }
    std::fs::write(&good, good_text).expect("write");

    let mut p = c.s.p.clone();
    p.explainability = matches!(c.fault, Fault::Contributions(_) | Fault::ExplainCluster(_));
    let words = |csv: &str, p: &crate::proto::P, start: usize, end: isize, scores: &str, contributions: &str, nodes: u8| {
        let mut w: Vec<String> = vec![
            format!("--pattern-length={}", p.pattern_length),
            format!("--latent={}", p.latent),
            format!("--rate={}", p.rate),
            format!("--threads={}", p.n_threads),
            format!("--query-length={}", p.query_length),
            format!("--score-output-path={scores}"),
            format!("--anomaly-contribution-output-path={contributions}"),
            format!("--column-start-idx={start}"),
            format!("--column-end-idx={end}"),
        ];
        if p.self_correction {
            w.push("--self-correction".into());
        }
        if p.explainability {
            w.push("--explainability".into());
        }
        if nodes > 1 {
            w.push(format!("--cluster-nodes={nodes}"));
        }
        w.extend(["main".to_string(), "--data-path".to_string(), csv.to_string()]);
        w
    };
    let mut good_p = p.clone();
    good_p.explainability &= !matches!(c.fault, Fault::ExplainCluster(_));
    let good_words = words(&good, &good_p, start, end, &scores, &contributions, 1);
    match run_program(&good_words, ctx) {
        Ok(st) if st.success() => {}
        Ok(st) => return Verdict::Fail(format!("without a fault, {good_words:?} ended with {st}")),
        Err(v) => return v,
    }
    for f in [&scores, &contributions] {
        let _ = std::fs::remove_file(f);
    }

    let place = |x: &Place| match x {
        Place::NoSuchDirectory => ctx.file("no-such-directory/out.csv"),
        Place::Directory => ctx.scratch.display().to_string(),
        Place::FullDevice => "/dev/full".to_string(),
    };
    let mut is_input = true;
    let (mut q, mut pl) = (p.query_length, p.pattern_length);
    let (mut from, mut to) = (start, end);
    let (mut score_path, mut contribution_path) = (scores.clone(), contributions.clone());
    let mut nodes = 1;
    let mut raw: Option<Vec<u8>> = None;
    let what: &str;
    match &c.fault {
        Fault::MissingFile => what = "missing file",
        Fault::InputIsDirectory => what = "directory as input",
        Fault::NoRows(k) => {
            match k {
                0 => cells.clear(),
                1 => cells.truncate(1),
                _ => raw = Some(vec![b'\n'; n]),
            }
            what = "no rows";
        }
        Fault::BadField(r, col, t) => {
            let mut t = NO_NUMBERS[*t as usize % NO_NUMBERS.len()];
            if total == 1 && t.is_empty() {
                // an empty line is no row
                t = "abc";
            }
            cells[1 + pick(*r, n)][c.l.before + *col as usize % d] = t.into();
            what = "no number";
        }
        Fault::RaggedRow(r, more) => {
            let row = &mut cells[1 + pick(*r, n)];
            // an empty line is no row
            if *more || total == 1 || (total == 2 && row[0].is_empty()) {
                row.push("1".into());
            } else {
                row.pop();
            }
            what = "ragged row";
        }
        Fault::NotUtf8(r, col) => {
            let cell = &mut cells[1 + pick(*r, n)][c.l.before + *col as usize % d];
            *cell = "@".into();
            raw = Some(c.l.join(&cells).into_bytes().into_iter().map(|b| if b == b'@' { 0xff } else { b }).collect());
            what = "not UTF-8";
        }
        Fault::QueryTooLong(k) => {
            q = n + 1 - pl + *k as usize;
            what = "query too long";
        }
        Fault::PatternTooLong(k) => {
            pl = n + 1 + *k as usize;
            what = "pattern too long";
        }
        Fault::NoColumns(k) => {
            match k {
                0 => (from, to) = (total, 0),
                1 => (from, to) = (total + 1, 0),
                3 => (from, to) = (start, -((total - start) as isize)),
                4 => (from, to) = (start, -(total as isize) - 1),
                _ => (from, to) = (start + 1, start as isize + 1),
            }
            what = "no columns";
        }
        Fault::Settings(k) => {
            match k {
                0 => p.n_threads = 0,
                1 => q = 0,
                2 => p.rate = 0,
                3 => pl = 0,
                _ => p.latent = pl,
            }
            what = "impossible setting";
        }
        Fault::Scores(x) => {
            score_path = place(x);
            is_input = false;
            what = "scores cannot be written";
        }
        Fault::Contributions(x) => {
            contribution_path = place(x);
            is_input = false;
            what = "contributions cannot be written";
        }
        Fault::ExplainCluster(k) => {
            nodes = *k;
            what = "explainability in a cluster";
        }
    }
    let mut bad = bad;
    if matches!(c.fault, Fault::InputIsDirectory) {
        bad = ctx.scratch.display().to_string();
    } else if !matches!(c.fault, Fault::MissingFile) {
        std::fs::write(&bad, raw.unwrap_or_else(|| c.l.join(&cells).into_bytes())).expect("write");
    }
    p.query_length = q;
    p.pattern_length = pl;
    let bad_words = words(&bad, &p, from, to, &score_path, &contribution_path, nodes);
    match run_program(&bad_words, ctx) {
        Ok(st) if st.success() => Verdict::Fail(format!("{what}: {bad_words:?} ended as if all was well")),
        Ok(_) if is_input && std::path::Path::new(&scores).exists() => {
            Verdict::Fail(format!("{what}: {bad_words:?} wrote scores"))
        }
        Ok(_) => pass(true, vec![what.into()]),
        Err(Verdict::Fail(m)) => Verdict::Fail(format!("{what}: {bad_words:?}: {m}")),
        Err(v) => v,
    }
}

pub fn c21() -> Check<Case> {
    Check {
        id: "C21",
        rule: "runs of the program on a generated series, once as is and once with one injected fault (missing or malformed input, settings that leave nothing to work on, an output that cannot be written); non-trivial: the run without the fault succeeded",
        strategy,
        eval,
        quick: 1200,
        thorough: 20000,
        shards: 8,
        assumptions: &[],
    }
}
