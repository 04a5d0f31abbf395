//! C11 (CSV input), C12 (score file), C15 (scaling and irrelevant columns).
use super::*;
use crate::driver::*;
use crate::gen::*;
use crate::proto::*;
use crate::trace::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Layout {
    pub before: usize,
    pub after: usize,
    /// how the end of the column range is written
    pub end: u8,
    pub format: u8,
    pub crlf: bool,
    pub last_newline: bool,
    pub header: u8,
    pub junk: u8,
    /// empty lines, which are no rows
    #[serde(default)]
    pub blanks: u8,
}

pub fn layout() -> BoxedStrategy<Layout> {
    (
        0usize..4,
        0usize..4,
        0u8..4,
        0u8..7,
        any::<bool>(),
        any::<bool>(),
        0u8..5,
        0u8..6,
        prop_oneof![2 => Just(0u8), 1 => 1u8..6],
    )
        .prop_map(|(before, after, end, format, crlf, last_newline, header, junk, blanks)| Layout {
            before,
            after,
            end,
            format,
            crlf,
            last_newline,
            header,
            junk,
            blanks,
        })
        .boxed()
}

impl Layout {
    fn number(&self, v: f32, i: usize) -> String {
        match self.format {
            0 => format!("{v}"),
            1 => format!("{v:e}"),
            2 => format!("  {v} "),
            3 => format!("{}", v as f64),
            4 if v.is_sign_positive() => format!("+{v}"),
            5 => format!("\"{v}\""),
            6 => match i % 4 {
                0 => format!("{v:E}"),
                1 => format!(" {v}"),
                2 => format!("{v:?}"),
                _ => format!("{v}\t"),
            },
            _ => format!("{v:?}"),
        }
    }
    fn other(&self, i: usize, c: usize) -> String {
        match self.junk {
            0 => format!("{i}"),
            1 => "".into(),
            2 => format!("2020-01-{:02} 00:00", i % 28 + 1),
            3 => format!("\"label, {c}\""),
            4 => format!("{}", noise(c as u32 + 5, i) * 1e6),
            _ => "n/a".into(),
        }
    }
    /// the fields of the file, the header first
    pub fn cells(&self, rows: &[Vec<f32>]) -> Vec<Vec<String>> {
        let total = self.before + rows[0].len() + self.after;
        let mut out = vec![(0..total)
            .map(|c| match self.header {
                0 => format!("c{c}"),
                1 => format!("\"channel {c}, in m\""),
                2 => format!("{c}"),
                3 => format!("\"channel\n{c}\""),
                _ => "same".into(),
            })
            .collect::<Vec<String>>()];
        for (i, r) in rows.iter().enumerate() {
            let mut f: Vec<String> = (0..self.before).map(|c| self.other(i, c)).collect();
            f.extend(r.iter().enumerate().map(|(c, v)| self.number(*v, i + c)));
            f.extend((0..self.after).map(|c| self.other(i, c + 100)));
            out.push(f);
        }
        out
    }
    pub fn join(&self, cells: &[Vec<String>]) -> String {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut lines: Vec<String> = cells.iter().map(|f| f.join(",")).collect();
        let n = lines.len();
        match self.blanks {
            0 => {}
            1 => lines.push("".into()),
            2 => lines.extend(vec!["".into(); 5 + n / 10]),
            3 => lines.insert(n.min(1), "".into()),
            4 => lines.insert((1 + n / 2).min(n), "".into()),
            _ => lines = lines.into_iter().flat_map(|l| [l, "".into()]).collect(),
        }
        lines.join(nl) + if self.last_newline { nl } else { "" }
    }
    /// the file's text and the column range to read it with
    pub fn write(&self, rows: &[Vec<f32>]) -> (String, usize, isize) {
        let d = rows[0].len();
        let total = self.before + d + self.after;
        let out = self.join(&self.cells(rows));
        let end = if self.after == 0 {
            match self.end {
                0 | 2 => 0,
                1 => (self.before + d) as isize,
                _ => (total + 1 + self.header as usize) as isize,
            }
        } else {
            match self.end {
                0 | 1 => (self.before + d) as isize,
                _ => -(self.after as isize),
            }
        };
        (out, self.before, end)
    }
}

/// A plain CSV file.
pub fn plain(rows: &[Vec<f32>]) -> String {
    Layout { before: 0, after: 0, end: 0, format: 0, crlf: false, last_newline: true, header: 0, junk: 0, blanks: 0 }.write(rows).0
}

/// Runs on a file; the score that was written, and the trace.
pub fn run_file(
    p: &P,
    text: &str,
    start: usize,
    end: isize,
    ctx: &mut Ctx,
) -> Result<(Vec<f32>, Trace), Verdict> {
    let csv = ctx.file("in.csv");
    let out = ctx.file("out.csv");
    let _ = std::fs::remove_file(&out);
    std::fs::write(&csv, text).expect("write input");
    let mut p = p.clone();
    p.column_start = start;
    p.column_end = end;
    let mut req = Request::memory(&p, &[]);
    req.source = Source::File(csv);
    req.score_path = Some(out.clone());
    let resp = ok_response(ctx.exec.run(&req))?;
    let text = std::fs::read_to_string(&out)
        .map_err(|e| Verdict::Fail(format!("the score file cannot be read: {e}")))?;
    let score = parse_scores(&text).map_err(Verdict::Fail)?;
    Ok((score, Trace::new(resp.trace)))
}

pub fn parse_scores(text: &str) -> Result<Vec<f32>, String> {
    text.lines()
        .enumerate()
        .map(|(i, l)| {
            l.parse::<f32>().map_err(|_| format!("line {i} of the score file is {l:?}, not a number"))
        })
        .collect()
}

pub fn run_memory(p: &P, rows: &[Vec<f32>], ctx: &mut Ctx) -> Result<(Vec<f32>, Trace), Verdict> {
    let resp = ok_response(ctx.exec.run(&Request::memory(p, rows)))?;
    let s = match &resp.outcome {
        Outcome::Ok(Some(s)) => s.f(),
        _ => return Err(Verdict::Fail("no score was returned".into())),
    };
    Ok((s, Trace::new(resp.trace)))
}

pub fn same_bits(a: &[f32], b: &[f32]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} scores against {}", a.len(), b.len()));
    }
    a.iter()
        .zip(b)
        .position(|(x, y)| x.to_bits() != y.to_bits() && !(*x == 0.0 && *y == 0.0))
        .map(|i| format!("score {i} is {} against {}", a[i], b[i]))
}

// ---------------------------------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase {
    s: SeriesCase,
    l: Layout,
}

fn eval_c11(c: &FileCase, ctx: &mut Ctx) -> Verdict {
    let rows = c.s.rows();
    let (text, start, end) = c.l.write(&rows);
    let (score, t) = match run_file(&c.s.p, &text, start, end, ctx) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let l = match &t.loaded {
        Some(l) => l,
        None => return Verdict::Fail("no data was loaded".into()),
    };
    if let Err(m) = embed::judge_loaded(&rows, &c.s.p, l) {
        return Verdict::Fail(format!("columns {start}..{end}: {m}"));
    }
    let (want, m) = match run_memory(&c.s.p, &rows, ctx) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let same_graph = m.edges == t.edges;
    if c.s.p.n_threads == 1 || same_graph {
        if let Some(d) = same_bits(&score, &want) {
            return Verdict::Fail(format!("run on the file against the run in memory: {d}"));
        }
    } else if score.len() != want.len() {
        return Verdict::Fail("different numbers of scores on file and in memory".into());
    }
    pass(
        c.l.before + c.l.after > 0,
        vec![
            format!("end kind {}", if end == 0 { "0" } else if end < 0 { "negative" } else { "positive" }),
            format!("ignored columns={}", c.l.before + c.l.after),
            format!("format={}", c.l.format),
            format!("blank lines={}", c.l.blanks),
            format!("threads={}", c.s.p.n_threads),
            format!("same graph={same_graph}"),
        ],
    )
}

pub fn c11() -> Check<FileCase> {
    Check {
        id: "C11",
        rule: "a generated series is written as CSV in a random layout (ignored columns with text, range ends of all kinds, number formats, blanks, quotes, line ends, empty lines) and run from the file and from memory; non-trivial: there are columns to ignore",
        strategy: || {
            (prop_oneof![500 => series_case(false), 1 => very_long(false)], layout(), any::<bool>())
                .prop_map(|(mut s, l, single)| {
                    if single {
                        s.p.n_threads = 1;
                    }
                    FileCase { s, l }
                })
                .boxed()
        },
        eval: eval_c11,
        quick: 1500,
        thorough: 30000,
        shards: 8,
        assumptions: &["values are written with enough digits to identify the 32-bit float"],
    }
}

// ---------------------------------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OutCase {
    s: SeriesCase,
    from_file: bool,
    old: u8,
    name: u8,
}

fn eval_c12(c: &OutCase, ctx: &mut Ctx) -> Verdict {
    let rows = c.s.rows();
    let name = ["scores.csv", "with blank.ts", "ümlaut", "a.b.c", "noext"][c.name as usize % 5];
    let out = ctx.file(name);
    let _ = std::fs::remove_file(&out);
    match c.old % 4 {
        1 => std::fs::write(&out, "0.5\n".repeat(5000)).unwrap(),
        2 => std::fs::write(&out, "x").unwrap(),
        3 => std::fs::write(&out, "").unwrap(),
        _ => {}
    }
    let mut req = Request::memory(&c.s.p, &rows);
    if c.from_file {
        let csv = ctx.file("in.csv");
        let l = Layout { before: 0, after: 0, end: 0, format: 0, crlf: false, last_newline: true, header: 0, junk: 0, blanks: 0 };
        std::fs::write(&csv, l.write(&rows).0).unwrap();
        req.source = Source::File(csv);
    }
    req.score_path = Some(out.clone());
    let resp = match ok_response(ctx.exec.run(&req)) {
        Ok(r) => r,
        Err(v) => return v,
    };
    let t = Trace::new(resp.trace.clone());
    let computed = match &t.score {
        Some(s) => s.clone(),
        None => return Verdict::Fail("no score was computed".into()),
    };
    if let Outcome::Ok(Some(s)) = &resp.outcome {
        if let Some(d) = same_bits(&s.f(), &computed) {
            return Verdict::Fail(format!("returned against computed: {d}"));
        }
    }
    let text = match std::fs::read_to_string(&out) {
        Ok(t) => t,
        Err(e) => return Verdict::Fail(format!("the score file cannot be read: {e}")),
    };
    let _ = std::fs::remove_file(&out);
    let got = match parse_scores(&text) {
        Ok(g) => g,
        Err(m) => return Verdict::Fail(m),
    };
    if let Some(d) = same_bits(&got, &computed) {
        return Verdict::Fail(format!("file against computed: {d}"));
    }
    if let Err(m) = c01::judge_score(rows.len(), &c.s.p, &got) {
        return Verdict::Fail(format!("score file: {m}"));
    }
    pass(
        got.iter().any(|x| *x != 0.0 && *x != 1.0),
        vec![format!("old content={}", c.old % 4), format!("from file={}", c.from_file), format!("name={name}")],
    )
}

pub fn c12() -> Check<OutCase> {
    Check {
        id: "C12",
        rule: "generated series, run from memory or file with an output path at which an older file may exist; non-trivial: there is a score strictly between 0 and 1",
        strategy: || {
            (prop_oneof![500 => series_case(true), 1 => very_long(true)], any::<bool>(), any::<u8>(), any::<u8>())
                .prop_map(|(s, from_file, old, name)| OutCase { s, from_file, old, name })
                .boxed()
        },
        eval: eval_c12,
        quick: 2000,
        thorough: 40000,
        shards: 8,
        assumptions: &[],
    }
}

// ---------------------------------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ScaleCase {
    s: SeriesCase,
    shift: i8,
    /// also compare two files that differ in header and ignored columns
    layouts: Option<(Layout, Layout)>,
}

fn eval_c15(c: &ScaleCase, ctx: &mut Ctx) -> Verdict {
    let rows = c.s.rows();
    let (a, ta) = match run_memory(&c.s.p, &rows, ctx) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let f = 2f32.powi(c.shift as i32);
    let scaled: Vec<Vec<f32>> = rows.iter().map(|r| r.iter().map(|v| v * f).collect()).collect();
    let exact = rows.iter().flatten().zip(scaled.iter().flatten()).all(|(a, b)| b / f == *a);
    if !exact {
        return Verdict::Inconclusive("scaling is not exact".into());
    }
    let (b, tb) = match run_memory(&c.s.p, &scaled, ctx) {
        Ok(x) => x,
        Err(v) => return v,
    };
    if let Some(d) = same_bits(&b, &a) {
        let g = if ta.edges == tb.edges { "same graph" } else { "different graph" };
        return Verdict::Fail(format!("scaled by 2^{} against original ({g}): {d}", c.shift));
    }
    let mut labels = vec![format!("channels={}", rows[0].len())];
    if let Some((l1, l2)) = &c.layouts {
        for l in [l1, l2] {
            let (text, start, end) = l.write(&rows);
            let (s, _) = match run_file(&c.s.p, &text, start, end, ctx) {
                Ok(x) => x,
                Err(v) => return v,
            };
            if let Some(d) = same_bits(&s, &a) {
                return Verdict::Fail(format!("with other header and ignored columns: {d}"));
            }
        }
        labels.push("with files".into());
    }
    pass(c.shift != 0 && a.iter().any(|x| *x != 0.0), labels)
}

pub fn c15() -> Check<ScaleCase> {
    Check {
        id: "C15",
        rule: "a generated series and the same series times a power of two, one helper thread; in some cases also two CSV files that differ in header and ignored columns; non-trivial: a shift other than 0 and scores that are not all 0",
        strategy: || {
            (
                series_case(false),
                prop_oneof![1i8..=10, -10i8..=-1],
                prop::option::weighted(0.25, (layout(), layout())),
            )
                .prop_map(|(mut s, shift, layouts)| {
                    s.p.n_threads = 1;
                    for c in s.chans.iter_mut() {
                        c.exp = c.exp.clamp(-6, 6);
                    }
                    ScaleCase { s, shift, layouts }
                })
                .boxed()
        },
        eval: eval_c15,
        quick: 2000,
        thorough: 40000,
        shards: 8,
        assumptions: &["powers of two between 2^-16 and 2^16 leave all intermediate results within the floating-point range"],
    }
}
