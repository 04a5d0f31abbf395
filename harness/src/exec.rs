//! Runs requests in worker processes and classifies how they end.
use crate::proto::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Run {
    Done(Box<Response>),
    /// the run did not end after a panic inside one of its threads
    PanickedAndHung(Vec<String>),
    /// every thread of the process sleeps, none has been scheduled for a long time
    Deadlock,
    /// the process died
    Died(String),
    /// no answer in the time we are willing to wait, but the process is busy: says nothing
    Timeout,
}

impl Run {
    pub fn describe(&self) -> String {
        match self {
            Run::Done(r) => match &r.outcome {
                Outcome::Ok(_) => "returned".into(),
                Outcome::Err(e) => format!("returned the error {:?}; panics: {:?}", e, r.panics),
                Outcome::Panic(e) => format!("panicked with {:?}; panics: {:?}", e, r.panics),
            },
            Run::PanickedAndHung(p) => format!("a thread panicked and the run never ended: {:?}", p),
            Run::Deadlock => "deadlock: all threads sleep for good".into(),
            Run::Died(s) => format!("the process died: {s}"),
            Run::Timeout => "no answer in time".into(),
        }
    }
}

pub struct WorkerProc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    runs: usize,
}

pub fn thread_snapshot(pid: u32) -> Option<(bool, u64)> {
    // (all threads sleep, total of cpu ticks and context switches)
    let mut all_sleep = true;
    let mut total = 0u64;
    let mut seen = 0;
    for e in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let e = e.ok()?;
        if std::fs::read_to_string(e.path().join("comm")).ok()?.trim() == "vtrace" {
            continue;
        }
        let stat = std::fs::read_to_string(e.path().join("stat")).ok()?;
        let rest = &stat[stat.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split_whitespace().collect();
        if f[0] != "S" {
            all_sleep = false;
        }
        total += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
        let status = std::fs::read_to_string(e.path().join("status")).ok()?;
        for l in status.lines() {
            if l.contains("ctxt_switches") {
                total += l.split_whitespace().last()?.parse::<u64>().ok()?;
            }
        }
        seen += 1;
    }
    if seen == 0 {
        None
    } else {
        Some((all_sleep, total))
    }
}

impl WorkerProc {
    pub fn spawn() -> Self {
        let exe = std::env::current_exe().expect("own path");
        let mut child = Command::new(exe)
            .arg("worker")
            .env("OPENBLAS_NUM_THREADS", "1")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::with_capacity(1 << 20, stdout).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            return;
                        }
                    }
                    Err(_) => return,
                }
            }
        });
        WorkerProc { child, stdin, rx, runs: 0 }
    }

    pub fn send(&mut self, req: &Request) -> bool {
        let s = serde_json::to_string(req).unwrap();
        self.runs += 1;
        writeln!(self.stdin, "{s}").is_ok() && self.stdin.flush().is_ok()
    }

    /// Waits for the reply of the last request. `watch_idle`: a process whose threads all sleep
    /// without a single context switch for 10 s is reported as a deadlock.
    pub fn wait(&mut self, limit: Duration, watch_idle: bool) -> Run {
        let start = Instant::now();
        let mut panics: Vec<String> = vec![];
        let mut panic_at: Option<Instant> = None;
        let mut idle_since: Option<(Instant, u64)> = None;
        loop {
            match self.rx.recv_timeout(Duration::from_millis(500)) {
                Ok(l) => {
                    if let Some(r) = l.strip_prefix('R') {
                        return match serde_json::from_str::<Response>(r) {
                            Ok(r) => Run::Done(Box::new(r)),
                            Err(e) => Run::Died(format!("unreadable reply: {e}")),
                        };
                    } else if let Some(p) = l.strip_prefix('P') {
                        panics.push(serde_json::from_str(p).unwrap_or_default());
                        panic_at.get_or_insert(Instant::now());
                    }
                    continue;
                }
                Err(RecvTimeoutError::Disconnected) => {
                    let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                    return Run::Died(format!("{st}; panics: {panics:?}"));
                }
                Err(RecvTimeoutError::Timeout) => {}
            }
            let snap = thread_snapshot(self.child.id());
            match (snap, &idle_since) {
                (Some((true, t)), Some((_, t0))) if t == *t0 => {}
                (Some((true, t)), _) => idle_since = Some((Instant::now(), t)),
                _ => idle_since = None,
            }
            let idle = idle_since.map(|(i, _)| i.elapsed()).unwrap_or_default();
            if panic_at.is_some() && idle > Duration::from_secs(2) {
                return Run::PanickedAndHung(panics);
            }
            if watch_idle && idle > Duration::from_secs(10) {
                return Run::Deadlock;
            }
            if start.elapsed() > limit {
                return Run::Timeout;
            }
        }
    }
}

impl Drop for WorkerProc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// One worker process at a time, replaced when it is used up or broken.
pub struct Exec {
    w: Option<WorkerProc>,
    pub runs: usize,
}

impl Exec {
    pub fn new() -> Self {
        Exec { w: None, runs: 0 }
    }

    pub fn run(&mut self, req: &Request) -> Run {
        self.runs += 1;
        if self.w.as_ref().map(|w| w.runs >= 200).unwrap_or(false) {
            self.w = None;
        }
        let w = self.w.get_or_insert_with(WorkerProc::spawn);
        if !w.send(req) {
            self.w = None;
            return Run::Died("could not send the request".into());
        }
        let r = w.wait(Duration::from_secs(120), true);
        match &r {
            Run::Done(resp) if matches!(resp.outcome, Outcome::Ok(_)) && resp.panics.is_empty() => {}
            _ => self.w = None,
        }
        r
    }

    pub fn fresh(&mut self) {
        self.w = None;
    }
}

/// Free ports below the range that outgoing connections use.
pub fn free_ports(k: usize) -> Vec<std::net::SocketAddr> {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let base = std::process::id().wrapping_mul(97);
    let mut found = vec![];
    for _ in 0..20_000 {
        let x = base.wrapping_add(NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        let addr = std::net::SocketAddr::from(([127, 0, 0, 1], 10_000 + (x % 20_000) as u16));
        if std::net::TcpListener::bind(addr).is_ok() {
            found.push(addr);
            if found.len() == k {
                return found;
            }
        }
    }
    panic!("no free ports");
}

pub struct ClusterRun<'a> {
    pub p: &'a P,
    pub csv: &'a str,
    pub k: usize,
    /// milliseconds between the starts of the processes
    pub starts: Vec<u64>,
    /// per process
    pub delays: Vec<Vec<(String, usize, u64)>>,
    /// points of the whole series, to be used in place of the rotated ones
    pub inject: Option<Vec<Vec<f32>>>,
    /// until the processes end, not only until they have rotated points
    pub whole: bool,
    pub score_path: Option<String>,
}

/// Runs a cluster of processes on one CSV file until every node has rotated its points or has
/// ended, and returns what each process recorded (main first).
pub fn run_cluster(r: &ClusterRun) -> Result<Vec<Vec<Ev>>, ClusterEnd> {
    let (k, starts, delays, csv) = (r.k, &r.starts, &r.delays, r.csv);
    let addrs = free_ports(k);
    let mut ws: Vec<WorkerProc> = (0..k).map(|_| WorkerProc::spawn()).collect();
    let mut p = r.p.clone();
    p.n_cluster_nodes = k;
    for i in 0..k {
        let mut d = delays[i].clone();
        if !r.whole {
            // what comes after the rotation is not looked at: no node may begin with it
            d.push(("rotated".into(), 0, 600_000_000));
        }
        let req = Request {
            p: p.clone(),
            source: if i == 0 { Source::File(csv.into()) } else { Source::Sub(addrs[0]) },
            local_host: Some(addrs[i]),
            score_path: if i == 0 { r.score_path.clone() } else { None },
            contribution_path: None,
            inject: r.inject.clone().map(|x| (0, x)),
            delays: d,
            want_trace: true,
            stream: true,
        };
        ws[i].send(&req);
        std::thread::sleep(Duration::from_millis(starts[i]));
    }
    let start = Instant::now();
    let mut traces: Vec<Vec<Ev>> = vec![vec![]; k];
    let mut done = vec![false; k];
    let mut stage = vec!["start"; k];
    let mut panics: Vec<String> = vec![];
    let mut ended: Vec<String> = vec![];
    let mut idle: Option<(Instant, u64)> = None;
    let mut looked = Instant::now();
    let mut scored: Option<Instant> = None;
    loop {
        let mut news = false;
        for i in 0..k {
            while let Ok(l) = ws[i].rx.try_recv() {
                news = true;
                let (kind, rest) = l.split_at(1);
                match kind {
                    "T" => {
                        let e: Ev = serde_json::from_str(rest).expect("stage");
                        done[i] |= !r.whole && matches!(e, Ev::Points(_));
                        stage[i] = e.name();
                        if r.whole && i == 0 && matches!(e, Ev::Score(_)) {
                            scored = Some(Instant::now());
                        }
                        traces[i].push(e);
                    }
                    "P" => panics.push(format!("node process {i}: {rest}")),
                    _ => {
                        let resp: Response = serde_json::from_str(rest).expect("response");
                        if r.whole && matches!(resp.outcome, Outcome::Ok(_)) {
                            done[i] = true;
                            traces[i].extend(resp.trace);
                        } else {
                            ended.push(format!("node process {i} ended: {}", format!("{:?}", resp.outcome).chars().take(300).collect::<String>()));
                        }
                    }
                }
            }
            if let Ok(Some(st)) = ws[i].child.try_wait() {
                let s = format!("node process {i} died: {st}");
                if !ended.contains(&s) {
                    ended.push(s);
                }
            }
        }
        // The main node has its scores. Whether its process ends is up to the network library, which
        // sometimes waits for connections when it is shut down.
        let over = scored.map(|t| t.elapsed() > Duration::from_secs(3)).unwrap_or(false)
            && traces.iter().all(|t| t.iter().any(|e| matches!(e, Ev::ScoringEdges(_))));
        if over || done.iter().all(|d| *d) {
            if r.whole && !panics.is_empty() {
                return Err(ClusterEnd::Stalled(format!("the cluster ended with panics: {panics:?}")));
            }
            // the last stages may be reported after the answer
            let late = Instant::now();
            for i in 0..1 {
                while r.whole
                    && !traces[i].iter().any(|e| matches!(e, Ev::Score(_)))
                    && late.elapsed() < Duration::from_secs(5)
                {
                    if let Ok(l) = ws[i].rx.recv_timeout(Duration::from_millis(200)) {
                        if let Some(rest) = l.strip_prefix('T') {
                            traces[i].push(serde_json::from_str(rest).expect("stage"));
                        }
                    }
                }
            }
            return Ok(traces);
        }
        if !news {
            std::thread::sleep(Duration::from_millis(3));
        }
        if looked.elapsed() > Duration::from_millis(500) {
            looked = Instant::now();
            let snaps: Option<Vec<(bool, u64)>> =
                ws.iter().map(|w| thread_snapshot(w.child.id())).collect();
            let all = snaps.map(|s| (s.iter().all(|x| x.0), s.iter().map(|x| x.1).sum::<u64>()));
            match (all, &idle) {
                // a few wake-ups of the runtime do not count
                (Some((true, t)), Some((since, t0)))
                    if t >= *t0 && t - *t0 <= 50 + 40 * since.elapsed().as_secs() * k as u64 && !news => {}
                (Some((true, t)), _) => idle = Some((Instant::now(), t)),
                _ => idle = None,
            }
            let quiet = idle.map(|(i, _)| i.elapsed()).unwrap_or_default();
            let limit = if panics.is_empty() && ended.is_empty() { 8 } else { 3 };
            if quiet > Duration::from_secs(limit) {
                return Err(ClusterEnd::Stalled(format!(
                    "the cluster stands still; done: {done:?}; got as far as: {stage:?}; panics: {panics:?}; {ended:?}"
                )));
            }
            if start.elapsed() > Duration::from_secs(60) {
                return Err(ClusterEnd::Timeout);
            }
        }
    }
}

pub enum ClusterEnd {
    Stalled(String),
    Timeout,
}

/// Waits for a program that has to end by itself.
pub fn wait_child(child: &mut Child) -> Result<std::process::ExitStatus, crate::driver::Verdict> {
    use crate::driver::Verdict;
    let start = Instant::now();
    let mut idle: Option<(Instant, u64)> = None;
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            return Ok(st);
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_secs(1) { 5 } else { 200 }));
        if start.elapsed() > Duration::from_secs(1) {
            match (thread_snapshot(child.id()), &idle) {
                (Some((true, t)), Some((_, t0))) if t == *t0 => {}
                (Some((true, t)), _) => idle = Some((Instant::now(), t)),
                _ => idle = None,
            }
        }
        if idle.map(|(i, _)| i.elapsed() > Duration::from_secs(10)).unwrap_or(false) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(Verdict::Fail("the program hangs: all threads sleep for good".into()));
        }
        if start.elapsed() > Duration::from_secs(120) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(Verdict::Inconclusive("no answer in time".into()));
        }
    }
}
