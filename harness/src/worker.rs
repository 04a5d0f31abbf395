//! The process that runs the code under test: one request per line on stdin, one reply per line
//! on stdout.
use crate::proto::*;
use ndarray::{Array2, ShapeBuilder};
use s2gpp::verif::{self, Event};
use std::io::{BufRead, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static PANICS: Mutex<Vec<String>> = Mutex::new(vec![]);

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

fn conv(e: Event) -> Ev {
    fn a<D: ndarray::Dimension>(x: &ndarray::Array<f32, D>) -> Arr {
        Arr { shape: x.shape().to_vec(), v: Bits::new(x.iter()) }
    }
    let pt = |(i, c, s): (usize, Vec<f32>, usize)| (i, Bits::new(c.iter()), s);
    match e {
        Event::Loaded { min, max, n, phase_space, data_ref } => Ev::Loaded {
            min: min.map(|x| Bits::new(x.iter())),
            max: max.map(|x| Bits::new(x.iter())),
            n,
            phase_space: a(&phase_space),
            data_ref: a(&data_ref),
        },
        Event::Components { components, means } => {
            Ev::Components { components: a(&components), means: Bits::new(means.iter()) }
        }
        Event::RotationMatrix(m) => Ev::RotationMatrix(a(&m)),
        Event::Points(p) => Ev::Points(p.into_iter().map(pt).collect()),
        Event::Transitions(t) => {
            Ev::Transitions(t.into_iter().map(|(x, y)| (pt(x), pt(y))).collect())
        }
        Event::Intersections(i) => {
            Ev::Intersections(i.into_iter().map(|(s, p, c)| (s, p, Bits::new(c.iter()))).collect())
        }
        Event::Clustering { segment, labels, centers } => {
            Ev::Clustering { segment, labels, centers: a(&centers) }
        }
        Event::Nodes(n) => Ev::Nodes(n),
        Event::Edges(e) => Ev::Edges(e),
        Event::ScoringEdges(e) => Ev::ScoringEdges(e),
        Event::Score(s) => Ev::Score(s.map(|x| Bits::new(x.iter()))),
    }
}

pub fn execute(req: Request) -> Response {
    verif::reset();
    PANICS.lock().unwrap().clear();
    let mut params = req.p.to_params();
    params.score_output_path = req.score_path.clone();
    if let Some(c) = &req.contribution_path {
        params.anomaly_contribution_output_path = c.clone();
    }
    if let Some(h) = req.local_host {
        params.local_host = h;
    }
    if let Some((offset, pts)) = req.inject.clone() {
        verif::inject_points(offset, pts);
    }
    if !req.delays.is_empty() {
        verif::set_delays(req.delays.iter().map(|(s, i, d)| ((s.clone(), *i), *d)).collect());
    }
    let data = match &req.source {
        Source::Memory(rows) | Source::MemoryF(rows) => {
            let n = rows.len();
            let d = rows.first().map(|r| r.len()).unwrap_or(0);
            let flat: Vec<f32> = rows.iter().flatten().copied().collect();
            let c = Array2::from_shape_vec((n, d), flat).unwrap();
            Some(if matches!(req.source, Source::MemoryF(_)) {
                let mut f = Array2::zeros((n, d).f());
                f.assign(&c);
                f
            } else {
                c
            })
        }
        Source::File(path) => {
            params.role = s2gpp::Role::Main { data_path: Some(path.clone()) };
            None
        }
        Source::Sub(main) => {
            params.role = s2gpp::Role::Sub { mainhost: *main };
            None
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| s2gpp::s2gpp(params, data)));
    let outcome = match r {
        Ok(Ok(s)) => Outcome::Ok(s.map(|x| Bits::new(x.iter()))),
        Ok(Err(e)) => Outcome::Err(e.to_string()),
        Err(e) => Outcome::Panic(
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default(),
        ),
    };
    let trace = verif::take_trace();
    Response {
        outcome,
        panics: PANICS.lock().unwrap().clone(),
        trace: if req.want_trace { trace.into_iter().map(conv).collect() } else { vec![] },
    }
}

pub fn main() {
    // the program under test writes to stdout: keep the reply channel to ourselves
    let out = unsafe {
        let keep = dup(1);
        dup2(2, 1);
        Mutex::new(std::fs::File::from_raw_fd(keep))
    };
    let out: &'static Mutex<std::fs::File> = Box::leak(Box::new(out));
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let line = format!("{msg} @ {loc}");
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(line.clone());
        let mut o = out.lock().unwrap_or_else(|e| e.into_inner());
        let _ = writeln!(o, "P{}", serde_json::to_string(&line).unwrap());
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => return,
        };
        let req: Request = serde_json::from_str(&line).expect("bad request");
        if req.stream {
            // the run may never end: report the stages as they are recorded
            std::thread::Builder::new()
                .name("vtrace".into())
                .spawn(move || loop {
                    for e in verif::take_trace() {
                        let s = serde_json::to_string(&conv(e)).unwrap();
                        let mut o = out.lock().unwrap_or_else(|e| e.into_inner());
                        let _ = writeln!(o, "T{s}");
                    }
                    std::thread::sleep(std::time::Duration::from_millis(5));
                })
                .expect("thread");
        }
        let resp = execute(req);
        let s = serde_json::to_string(&resp).unwrap();
        let mut o = out.lock().unwrap_or_else(|e| e.into_inner());
        writeln!(o, "R{s}").unwrap();
        o.flush().unwrap();
    }
}
