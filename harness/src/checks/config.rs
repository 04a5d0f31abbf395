//! C16 (command line) and C17 (assignment of segments to cluster nodes).
use super::io::*;
use super::*;
use crate::driver::*;
use crate::gen::*;
use crate::proto::*;
use proptest::prelude::*;
use s2gpp::{Parameters, Role};
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;
use std::process::Command;
use structopt::StructOpt;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Opt {
    LocalHost(String),
    PatternLength(usize),
    Latent(usize),
    Rate(usize),
    Threads(usize),
    ClusterNodes(usize),
    QueryLength(usize),
    ScorePath(String),
    ColumnStart(usize),
    ColumnEnd(isize),
    Clustering,
    Explainability,
    ContributionPath(String),
    SelfCorrection,
}

impl Opt {
    fn kind(&self) -> usize {
        match self {
            Opt::LocalHost(_) => 0,
            Opt::PatternLength(_) => 1,
            Opt::Latent(_) => 2,
            Opt::Rate(_) => 3,
            Opt::Threads(_) => 4,
            Opt::ClusterNodes(_) => 5,
            Opt::QueryLength(_) => 6,
            Opt::ScorePath(_) => 7,
            Opt::ColumnStart(_) => 8,
            Opt::ColumnEnd(_) => 9,
            Opt::Clustering => 10,
            Opt::Explainability => 11,
            Opt::ContributionPath(_) => 12,
            Opt::SelfCorrection => 13,
        }
    }
    /// as command line words; style: short form, "=" form
    fn words(&self, short: bool, eq: bool) -> Vec<String> {
        let (long, sh, val): (&str, Option<&str>, Option<String>) = match self {
            Opt::LocalHost(v) => ("--local-host", Some("-l"), Some(v.clone())),
            Opt::PatternLength(v) => ("--pattern-length", Some("-p"), Some(v.to_string())),
            Opt::Latent(v) => ("--latent", None, Some(v.to_string())),
            Opt::Rate(v) => ("--rate", None, Some(v.to_string())),
            Opt::Threads(v) => ("--threads", Some("-t"), Some(v.to_string())),
            Opt::ClusterNodes(v) => ("--cluster-nodes", Some("-n"), Some(v.to_string())),
            Opt::QueryLength(v) => ("--query-length", Some("-q"), Some(v.to_string())),
            Opt::ScorePath(v) => ("--score-output-path", None, Some(v.clone())),
            Opt::ColumnStart(v) => ("--column-start-idx", None, Some(v.to_string())),
            Opt::ColumnEnd(v) => ("--column-end-idx", None, Some(v.to_string())),
            Opt::Clustering => ("--clustering", None, Some("kde".into())),
            Opt::Explainability => ("--explainability", None, None),
            Opt::ContributionPath(v) => {
                ("--anomaly-contribution-output-path", None, Some(v.clone()))
            }
            Opt::SelfCorrection => ("--self-correction", None, None),
        };
        let negative = val.as_ref().map(|v| v.starts_with('-')).unwrap_or(false);
        match val {
            None => vec![long.into()],
            Some(v) if negative || (eq && !short) => vec![format!("{long}={v}")],
            Some(v) => vec![if short { sh.unwrap_or(long).into() } else { long.into() }, v],
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sub {
    Main(Option<String>),
    Sub(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CliCase {
    /// options in order, with their style
    Parse(Vec<(Opt, bool, bool)>, Sub, bool),
    /// an option with a value that has to be rejected
    Reject(u8, String),
    /// the same, for a value that is almost a valid one
    Almost(u8, u64, u8),
    /// a run of the program
    Run(SeriesCase, Layout, Vec<(bool, bool)>, u32),
}

fn addr() -> BoxedStrategy<String> {
    prop_oneof![
        (any::<[u8; 4]>(), any::<u16>()).prop_map(|(a, p)| format!("{}.{}.{}.{}:{p}", a[0], a[1], a[2], a[3])),
        any::<u16>().prop_map(|p| format!("[::1]:{p}")),
    ]
    .boxed()
}

fn number() -> BoxedStrategy<usize> {
    prop_oneof![2 => 0usize..20, 4 => any::<u16>().prop_map(|v| v as usize), 1 => any::<u32>().prop_map(|v| v as usize), 1 => any::<usize>()].boxed()
}

fn opt() -> BoxedStrategy<Opt> {
    let path = "[a-zA-Z0-9_./][a-zA-Z0-9_. /-]{0,20}";
    prop_oneof![
        addr().prop_map(Opt::LocalHost),
        number().prop_map(Opt::PatternLength),
        number().prop_map(Opt::Latent),
        number().prop_map(Opt::Rate),
        number().prop_map(Opt::Threads),
        number().prop_map(Opt::ClusterNodes),
        number().prop_map(Opt::QueryLength),
        path.prop_map(Opt::ScorePath),
        number().prop_map(Opt::ColumnStart),
        prop_oneof![any::<i16>().prop_map(|v| v as isize), any::<isize>()].prop_map(Opt::ColumnEnd),
        Just(Opt::Clustering),
        Just(Opt::Explainability),
        path.prop_map(Opt::ContributionPath),
        Just(Opt::SelfCorrection),
    ]
    .boxed()
}

fn strategy16() -> BoxedStrategy<CliCase> {
    let path = "[a-zA-Z0-9_./][a-zA-Z0-9_. /-]{0,20}";
    prop_oneof![
        8 => (
            prop::collection::vec((opt(), any::<bool>(), any::<bool>()), 0..14),
            prop_oneof![
                3 => path.prop_map(|p| Sub::Main(Some(p))),
                1 => Just(Sub::Main(None)),
                2 => addr().prop_map(Sub::Sub)
            ],
            any::<bool>(),
        )
            .prop_map(|(mut o, s, sh)| {
                let mut seen = std::collections::HashSet::new();
                o.retain(|x| seen.insert(x.0.kind()));
                CliCase::Parse(o, s, sh)
            }),
        2 => (any::<u8>(), prop_oneof![
                Just("abc".to_string()), Just("1.5".to_string()), Just("0x10".to_string()),
                Just("12a".to_string()), Just("meanshift".to_string()), "[a-z]{1,6}",
                Just("99999999999999999999999".to_string()), Just("1 2".to_string())
            ]).prop_map(|(k, v)| CliCase::Reject(k, v)),
        2 => (any::<u8>(), any::<u64>(), any::<u8>()).prop_map(|(k, n, how)| CliCase::Almost(k, n, how)),
        1 => (series_case(false), layout(), prop::collection::vec((any::<bool>(), any::<bool>()), 14), any::<u32>())
            .prop_map(|(mut s, l, st, o)| {
                s.p.n_threads = 1;
                s.extra = s.extra.min(200);
                CliCase::Run(s, l, st, o)
            }),
    ]
    .boxed()
}

fn sub_words(s: &Sub, short: bool) -> Vec<String> {
    match s {
        Sub::Main(None) => vec!["main".into()],
        Sub::Main(Some(p)) => {
            vec!["main".into(), if short { "-d".into() } else { "--data-path".into() }, p.clone()]
        }
        Sub::Sub(a) => {
            vec!["sub".into(), if short { "-h".into() } else { "--mainhost".into() }, a.clone()]
        }
    }
}

fn describe(p: &Parameters) -> Vec<(&'static str, String)> {
    vec![
        ("local host", p.local_host.to_string()),
        ("pattern length", p.pattern_length.to_string()),
        ("latent", p.latent.to_string()),
        ("rate", p.rate.to_string()),
        ("threads", p.n_threads.to_string()),
        ("cluster nodes", p.n_cluster_nodes.to_string()),
        ("query length", p.query_length.to_string()),
        ("score path", format!("{:?}", p.score_output_path)),
        ("column start", p.column_start.to_string()),
        ("column end", p.column_end.to_string()),
        ("clustering", format!("{:?}", p.clustering)),
        ("explainability", p.explainability.to_string()),
        ("contribution path", p.anomaly_contribution_output_path.clone()),
        ("self correction", p.self_correction.to_string()),
        ("role", match &p.role {
            Role::Main { data_path } => format!("main {data_path:?}"),
            Role::Sub { mainhost } => format!("sub {mainhost}"),
        }),
    ]
}

const VALUED: [&str; 10] = [
    "--pattern-length", "--latent", "--rate", "--threads", "--cluster-nodes",
    "--query-length", "--column-start-idx", "--column-end-idx", "--local-host",
    "--clustering",
];

fn rejected(name: &str, v: &str) -> Verdict {
    for words in [
        vec!["s2gpp".to_string(), name.into(), v.into(), "main".into(), "--data-path".into(), "x".into()],
        vec!["s2gpp".to_string(), format!("{name}={v}"), "main".into(), "--data-path".into(), "x".into()],
        vec!["s2gpp".to_string(), format!("{name}={v}"), "sub".into(), "--mainhost".into(), "127.0.0.1:1".into()],
    ] {
        if Parameters::from_iter_safe(&words).is_ok() {
            return Verdict::Fail(format!("{words:?} is accepted"));
        }
    }
    if name == "--local-host" {
        let words = ["s2gpp".to_string(), "sub".into(), format!("--mainhost={v}")];
        if Parameters::from_iter_safe(&words).is_ok() {
            return Verdict::Fail(format!("{words:?} is accepted"));
        }
    }
    pass(true, vec!["reject".into()])
}

fn eval_c16(c: &CliCase, ctx: &mut Ctx) -> Verdict {
    match c {
        CliCase::Parse(opts, sub, short) => {
            let mut words = vec!["s2gpp".to_string()];
            for (o, s, e) in opts {
                words.extend(o.words(*s, *e));
            }
            words.extend(sub_words(sub, *short));
            let mut want = vec![
                "127.0.0.1:8000".to_string(),
                "50".into(),
                "16".into(),
                "100".into(),
                "8".into(),
                "1".into(),
                "75".into(),
                "None".into(),
                "0".into(),
                "0".into(),
                "MultiKDE".into(),
                "false".into(),
                "anomaly-contribution.csv".into(),
                "false".into(),
            ];
            // the library's defaults are the same, but for the threads
            let mut lib = describe(&Parameters::default());
            lib.pop();
            for ((name, got), w) in lib.into_iter().zip(&want) {
                if name != "threads" && got != *w {
                    return Verdict::Fail(format!("the library's default {name} is {got}, expected {w}"));
                }
            }
            for (o, ..) in opts {
                want[o.kind()] = match o {
                    Opt::LocalHost(v) => v.parse::<SocketAddr>().unwrap().to_string(),
                    Opt::PatternLength(v)
                    | Opt::Latent(v)
                    | Opt::Rate(v)
                    | Opt::Threads(v)
                    | Opt::ClusterNodes(v)
                    | Opt::QueryLength(v)
                    | Opt::ColumnStart(v) => v.to_string(),
                    Opt::ScorePath(v) => format!("{:?}", Some(v)),
                    Opt::ColumnEnd(v) => v.to_string(),
                    Opt::Clustering => "MultiKDE".into(),
                    Opt::Explainability | Opt::SelfCorrection => "true".into(),
                    Opt::ContributionPath(v) => v.clone(),
                };
            }
            want.push(match sub {
                Sub::Main(p) => format!("main {p:?}"),
                Sub::Sub(a) => format!("sub {}", a.parse::<SocketAddr>().unwrap()),
            });
            let p = match Parameters::from_iter_safe(&words) {
                Ok(p) => p,
                Err(e) => return Verdict::Fail(format!("{words:?} is rejected: {e}")),
            };
            for ((name, got), w) in describe(&p).into_iter().zip(&want) {
                if got != *w {
                    return Verdict::Fail(format!("{words:?} gives {name} = {got}, expected {w}"));
                }
            }
            pass(opts.len() > 1, vec!["parse".into(), format!("options={}", opts.len())])
        }
        CliCase::Reject(k, v) => {
            let name = VALUED[*k as usize % VALUED.len()];
            if name == "--clustering" && v == "kde" {
                return pass(false, vec!["valid after all".into()]);
            }
            rejected(name, v)
        }
        CliCase::Almost(k, n, how) => {
            let name = VALUED[*k as usize % VALUED.len()];
            let h = *how as usize;
            let v = match name {
                "--clustering" => {
                    let forms = [
                        "KDE", "Kde", "kdE", "kd", "de", "ke", "kde ", " kde", "kde1", "kdee", "kde,", "kde\t", "ekd", "", "k", "MultiKDE",
                        "multikde", "kde-kde", "mean_shift", "MeanShift", "none", "0",
                    ];
                    forms[h % forms.len()].to_string()
                }
                "--local-host" => {
                    let p = n % 65536;
                    let forms = [
                        format!("127.0.0.1"), format!("127.0.0.1:"), format!(":{p}"), format!("{p}"), format!("localhost:{p}"),
                        format!("127.0.0.1:{}", 65536 + p), format!("127.0.0.256:{p}"), format!("127.0.0:{p}"),
                        format!("127.0.0.1.1:{p}"), format!("::1:{p}"), format!("[::1]"), format!("127.0.0.1:-{p}"),
                        format!("127.0.0.1 :{p}"), format!("127.0.0.1:{p} "), format!("[127.0.0.1]:{p}"), String::new(),
                    ];
                    forms[h % forms.len()].clone()
                }
                _ => {
                    let forms = [
                        format!("{n}."), format!("{n}.0"), format!("{n}e0"), format!("{n} "), format!(" {n}"), format!("{n}a"),
                        format!("--{n}"), format!("1{:020}", n), format!("{n},0"), format!("{n}_0"), format!("0x{n:x}"), format!("½"),
                        format!("{n}-"), format!("{n}\n"), String::new(), format!("-1{:020}", n),
                    ];
                    if h % 17 == 16 && name != "--column-end-idx" {
                        format!("-{}", n.max(&1))
                    } else {
                        forms[h % 17 % 16].clone()
                    }
                }
            };
            rejected(name, &v)
        }
        CliCase::Run(s, l, style, order) => {
            let rows = s.rows();
            let (text, start, end) = l.write(&rows);
            let csv = ctx.file("cli.csv");
            let out = ctx.file("cli-out.csv");
            let _ = std::fs::remove_file(&out);
            std::fs::write(&csv, text).unwrap();
            let mut opts = vec![
                Opt::PatternLength(s.p.pattern_length),
                Opt::Latent(s.p.latent),
                Opt::Rate(s.p.rate),
                Opt::Threads(s.p.n_threads),
                Opt::QueryLength(s.p.query_length),
                Opt::ScorePath(out.clone()),
            ];
            if start != 0 {
                opts.push(Opt::ColumnStart(start));
            }
            if end != 0 {
                opts.push(Opt::ColumnEnd(end));
            }
            if s.p.self_correction {
                opts.push(Opt::SelfCorrection);
            }
            let k = *order as usize % opts.len();
            opts.rotate_left(k);
            let mut words = vec![];
            for (o, (sh, eq)) in opts.iter().zip(style.iter().cycle()) {
                words.extend(o.words(*sh, *eq));
            }
            words.extend(sub_words(&Sub::Main(Some(csv)), style.first().map(|x| x.0).unwrap_or(false)));
            let st = match run_program(&words, ctx) {
                Ok(st) => st,
                Err(v) => return v,
            };
            if !st.success() {
                return Verdict::Fail(format!("{words:?} ended with {st}"));
            }
            let got = match std::fs::read_to_string(&out)
                .map_err(|e| e.to_string())
                .and_then(|t| parse_scores(&t))
            {
                Ok(g) => g,
                Err(e) => return Verdict::Fail(format!("score file of {words:?}: {e}")),
            };
            let (want, _) = match run_memory(&s.p, &rows, ctx) {
                Ok(x) => x,
                Err(v) => return v,
            };
            if let Some(d) = same_bits(&got, &want) {
                return Verdict::Fail(format!("program {words:?} against library: {d}"));
            }
            pass(want.iter().any(|x| *x != 0.0), vec!["run of the program".into()])
        }
    }
}

/// Runs the program with these arguments until it ends.
pub fn run_program(words: &[String], ctx: &Ctx) -> Result<std::process::ExitStatus, Verdict> {
    let exe = std::env::current_exe().unwrap().with_file_name("s2gpp_cli");
    let mut child = Command::new(&exe)
        .args(words)
        .current_dir(&ctx.scratch)
        .env("OPENBLAS_NUM_THREADS", "1")
        .env("RUST_BACKTRACE", "0")
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| Verdict::Inconclusive(format!("cannot start the program: {e}")))?;
    crate::exec::wait_child(&mut child)
}

pub fn c16() -> Check<CliCase> {
    Check {
        id: "C16",
        rule: "command lines from subsets of the options in random order and style, invalid values, and runs of the program on generated files compared with the library; non-trivial: at least two options, a rejected value, or a run whose scores are not all 0",
        strategy: strategy16,
        eval: eval_c16,
        quick: 24000,
        thorough: 100000,
        shards: 8,
        assumptions: &[],
    }
}

// ---------------------------------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AssignCase {
    rate: usize,
    nodes: usize,
    local: String,
    main: Option<String>,
    probe: String,
}

fn eval_c17(c: &AssignCase, _ctx: &mut Ctx) -> Verdict {
    let nodes = c.nodes.clamp(1, c.rate);
    let (local, probe): (SocketAddr, SocketAddr) = (c.local.parse().unwrap(), c.probe.parse().unwrap());
    let main: Option<SocketAddr> = c.main.as_ref().map(|m| m.parse().unwrap());
    let p = Parameters {
        rate: c.rate,
        n_cluster_nodes: nodes,
        local_host: local,
        role: match main {
            Some(mainhost) => Role::Sub { mainhost },
            None => Role::Main { data_path: None },
        },
        ..Default::default()
    };
    let r = std::panic::catch_unwind(|| {
        let per = c.rate / nodes;
        if p.segments_per_node() != per {
            return Err(format!("{} segments per node, expected {per}", p.segments_per_node()));
        }
        let a: Vec<usize> = (0..c.rate).map(|s| p.segment_id_to_assignment(s)).collect();
        let mut count = vec![0usize; nodes];
        let mut first = vec![None; nodes];
        for (s, n) in a.iter().enumerate() {
            if *n >= nodes {
                return Err(format!("segment {s} is assigned to cluster node {n} of {nodes}"));
            }
            if s > 0 && a[s - 1] > *n {
                return Err(format!("segment {s} is assigned to {n} after {}", a[s - 1]));
            }
            count[*n] += 1;
            first[*n].get_or_insert(s);
        }
        for n in 0..nodes {
            if count[n] < per {
                return Err(format!("cluster node {n} has {} of {} segments", count[n], c.rate));
            }
        }
        for s in 0..c.rate {
            for i in 0..2 * nodes + 1 {
                let want = first[(a[s] + i) % nodes].unwrap();
                let got = p.first_segment_of_i_next_cluster_node(s, i);
                if got != want {
                    return Err(format!(
                        "first segment of the {i}. next cluster node of segment {s} is {got}, expected {want}"
                    ));
                }
            }
        }
        let m = main.unwrap_or(local);
        for (x, want) in [(m, true), (probe, probe == m), (local, local == m)] {
            if p.is_main_addr(x) != want {
                return Err(format!("{x} is main: {}, expected {want}", p.is_main_addr(x)));
            }
        }
        Ok(())
    });
    match r {
        Err(_) => Verdict::Fail(format!("panic with rate {} and {nodes} cluster nodes", c.rate)),
        Ok(Err(m)) => Verdict::Fail(format!("rate {}, {nodes} cluster nodes: {m}", c.rate)),
        Ok(Ok(())) => pass(
            nodes > 1 && c.rate % nodes != 0,
            vec![format!("divisible={}", c.rate % nodes == 0), format!("sub={}", main.is_some())],
        ),
    }
}

pub fn c17() -> Check<AssignCase> {
    Check {
        id: "C17",
        rule: "rates up to 400 with cluster sizes up to the rate, all segments and offsets of each, random addresses; non-trivial: several cluster nodes and a rate they do not divide",
        strategy: || {
            (
                prop_oneof![3 => 1usize..60, 1 => 60usize..400],
                prop_oneof![4 => 1usize..12, 1 => 1usize..400],
                addr(),
                prop::option::of(addr()),
                addr(),
            )
                .prop_map(|(rate, nodes, local, main, probe)| AssignCase { rate, nodes, local, main, probe })
                .boxed()
        },
        eval: eval_c17,
        quick: 60000,
        thorough: 60000,
        shards: 8,
        assumptions: &[],
    }
}
