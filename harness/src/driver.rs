//! Generic search: seeded generation on several shards, shrinking, replay files, evidence.
use crate::exec::Exec;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Verdict {
    Pass { nontrivial: bool, labels: Vec<String> },
    Fail(String),
    /// a listed finding: (name in the known-findings file)
    Known(String),
    /// says nothing about the property
    Inconclusive(String),
}

pub fn pass(nontrivial: bool, labels: Vec<String>) -> Verdict {
    Verdict::Pass { nontrivial, labels }
}

/// What a check may use: a worker process and a scratch directory.
pub struct Ctx {
    pub exec: Exec,
    pub scratch: PathBuf,
    pub counters: BTreeMap<String, u64>,
}
impl Ctx {
    pub fn new(tag: &str) -> Self {
        let base = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into());
        let scratch =
            PathBuf::from(base).join(format!("vh-{}-{}", std::process::id(), tag));
        std::fs::create_dir_all(&scratch).expect("scratch directory");
        Ctx { exec: Exec::new(), scratch, counters: BTreeMap::new() }
    }
    pub fn file(&self, name: &str) -> String {
        self.scratch.join(name).to_string_lossy().into_owned()
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.counters.entry(what.into()).or_default() += n;
    }
}
impl Drop for Ctx {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.scratch);
    }
}

pub struct Check<C: 'static> {
    pub id: &'static str,
    pub rule: &'static str,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub eval: fn(&C, &mut Ctx) -> Verdict,
    pub quick: usize,
    pub thorough: usize,
    pub shards: usize,
    pub assumptions: &'static [&'static str],
}

pub trait AnyCheck: Sync {
    fn id(&self) -> &'static str;
    fn run(&self, tier: &str, seed: u64) -> i32;
    fn replay(&self, path: &str, times: usize) -> i32;
    fn print_sample(&self, seed: u64, n: usize);
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn runner(seed: u64) -> TestRunner {
    let mut cfg = Config::default();
    cfg.failure_persistence = None;
    cfg.rng_seed = RngSeed::Fixed(seed);
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&seed.wrapping_mul(0x9E3779B97F4A7C15).to_le_bytes());
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

fn case_hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Stats {
    evaluations: usize,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, usize>,
    known: BTreeMap<String, usize>,
    inconclusive: BTreeMap<String, usize>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    runs: usize,
}

impl<C> Check<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn shrink(&self, tree: &mut dyn ValueTree<Value = C>, msg: String, ctx: &mut Ctx) -> (C, String, usize) {
        let budget = Duration::from_secs(
            std::env::var("VERIF_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(75),
        );
        let start = Instant::now();
        let mut best = (tree.current(), msg);
        let mut steps = 0;
        if !tree.simplify() {
            return (best.0, best.1, 0);
        }
        while start.elapsed() < budget {
            steps += 1;
            let c = tree.current();
            if let Verdict::Fail(m) = (self.eval)(&c, ctx) {
                best = (c, m);
                if !tree.simplify() {
                    break;
                }
            } else if !tree.complicate() {
                break;
            }
        }
        (best.0, best.1, steps)
    }

    fn save_failure(&self, case: &C, msg: &str, origin: &str, steps: usize) -> PathBuf {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let body = json!({"property": self.id, "case": case, "message": msg, "origin": origin, "shrink_steps": steps});
        let s = serde_json::to_string_pretty(&body).unwrap();
        let path = dir.join(format!("{}-{:016x}.json", self.id, case_hash(&s)));
        std::fs::write(&path, s).expect("write replay");
        path
    }
}

impl<C> AnyCheck for Check<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn id(&self) -> &'static str {
        self.id
    }

    fn run(&self, tier: &str, seed: u64) -> i32 {
        let start = Instant::now();
        let total = std::env::var("VERIF_CASES")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == "thorough" { self.thorough } else { self.quick });
        // an emergency stop only: a run normally ends after its fixed number of cases
        let cap = Duration::from_secs(
            std::env::var("VERIF_CAP_S")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(if tier == "thorough" { 6 * 3600 } else { 420 }),
        );
        let shards = self.shards.min(total.max(1));
        let stop = AtomicBool::new(false);
        let next = AtomicUsize::new(0);
        let stats = Mutex::new(Stats::default());
        let failure: Mutex<Option<(PathBuf, String)>> = Mutex::new(None);

        // saved cases first
        let saved = self.saved_cases();
        {
            let mut ctx = Ctx::new("saved");
            for (name, c) in saved {
                let v = (self.eval)(&c, &mut ctx);
                let mut st = stats.lock().unwrap();
                st.evaluations += 1;
                *st.labels.entry("saved case".into()).or_default() += 1;
                match v {
                    Verdict::Fail(m) => {
                        let p = self.save_failure(&c, &m, &format!("saved case {name}"), 0);
                        failure.lock().unwrap().get_or_insert((p, m));
                        stop.store(true, Ordering::SeqCst);
                    }
                    Verdict::Known(k) => *st.known.entry(k).or_default() += 1,
                    Verdict::Inconclusive(k) => *st.inconclusive.entry(k).or_default() += 1,
                    Verdict::Pass { .. } => {}
                }
            }
        }

        std::thread::scope(|sc| {
            for shard in 0..shards {
                let (stop, next, stats, failure) = (&stop, &next, &stats, &failure);
                let cases = total / shards + usize::from(shard < total % shards);
                sc.spawn(move || {
                    let _ = next;
                    let mut ctx = Ctx::new(&format!("{}-{}", self.id, shard));
                    let mut run = runner(seed.wrapping_mul(1_000_003).wrapping_add(shard as u64));
                    let strat = (self.strategy)();
                    for k in 0..cases {
                        if stop.load(Ordering::SeqCst) || start.elapsed() > cap {
                            break;
                        }
                        let mut tree = strat.new_tree(&mut run).expect("generator");
                        let c = tree.current();
                        let v = (self.eval)(&c, &mut ctx);
                        let js = serde_json::to_string(&c).unwrap();
                        let mut st = stats.lock().unwrap();
                        st.evaluations += 1;
                        match v {
                            Verdict::Pass { nontrivial, labels } => {
                                if nontrivial {
                                    st.nontrivial.insert(case_hash(&js));
                                    if st.samples.len() < 3 && js.len() < 6000 && k > 0 {
                                        st.samples.push(serde_json::from_str(&js).unwrap());
                                    }
                                }
                                for l in labels {
                                    *st.labels.entry(l).or_default() += 1;
                                }
                            }
                            Verdict::Known(k) => *st.known.entry(k).or_default() += 1,
                            Verdict::Inconclusive(k) => {
                                let k: String = k.chars().take(160).collect();
                                *st.inconclusive.entry(k).or_default() += 1
                            }
                            Verdict::Fail(m) => {
                                drop(st);
                                if stop.swap(true, Ordering::SeqCst) {
                                    break;
                                }
                                let origin = format!("seed {seed}, shard {shard}, case {k}: {m}");
                                let (c, m, steps) = self.shrink(&mut tree, m, &mut ctx);
                                let p = self.save_failure(&c, &m, &origin, steps);
                                *failure.lock().unwrap() = Some((p, m));
                                break;
                            }
                        }
                    }
                    let mut st = stats.lock().unwrap();
                    st.runs += ctx.exec.runs;
                    for (k, v) in &ctx.counters {
                        *st.counters.entry(k.clone()).or_default() += v;
                    }
                });
            }
        });
        let st = stats.into_inner().unwrap();
        let failure = failure.into_inner().unwrap();
        let wall = start.elapsed().as_secs_f64();
        let inconclusive: usize = st.inconclusive.values().sum();
        let mut assumptions: Vec<String> = self.assumptions.iter().map(|s| s.to_string()).collect();
        assumptions.push("only the generated inputs and schedules are covered".into());
        let evidence = json!({
            "property": self.id, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": st.evaluations,
                "distinct_nontrivial": st.nontrivial.len(),
                "rule": self.rule,
                "samples": st.samples,
                "requested": total,
                "runs_of_the_program": st.runs,
                "classes": st.labels,
                "counters": st.counters,
                "inconclusive": st.inconclusive,
                "known_findings_met": st.known,
            },
            "assumptions": assumptions,
            "wall_s": wall,
            "violations": usize::from(failure.is_some()),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&evidence).unwrap(),
        )
        .expect("write evidence");
        println!(
            "{}: {} cases ({} non-trivial, {} inconclusive) in {:.1} s",
            self.id,
            st.evaluations,
            st.nontrivial.len(),
            inconclusive,
            wall
        );
        for (k, n) in &st.inconclusive {
            println!("  inconclusive x{n}: {k}");
        }
        if let Some((p, m)) = failure {
            println!("{m}");
            println!("VIOLATION property={} replay={}", self.id, p.display());
            return 1;
        }
        for k in st.known.keys() {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        if st.evaluations == 0 || st.nontrivial.is_empty() || inconclusive * 2 > st.evaluations {
            println!("{}: the search said too little, no verdict", self.id);
            return 3;
        }
        0
    }

    fn replay(&self, path: &str, times: usize) -> i32 {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("json");
        let c: C = serde_json::from_value(v["case"].clone()).expect("case");
        let mut ctx = Ctx::new("replay");
        let mut code = 0;
        for _ in 0..times {
            let r = (self.eval)(&c, &mut ctx);
            println!("{:?}", r);
            if let Verdict::Fail(_) = r {
                code = 1;
            }
        }
        if code == 1 {
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        code
    }

    fn print_sample(&self, seed: u64, n: usize) {
        let mut run = runner(seed);
        let s = (self.strategy)();
        for _ in 0..n {
            println!("{}", serde_json::to_string(&s.new_tree(&mut run).unwrap().current()).unwrap());
        }
    }
}

impl<C> Check<C>
where
    C: DeserializeOwned,
{
    fn saved_cases(&self) -> Vec<(String, C)> {
        let dir = verif_dir().join("saved").join(self.id);
        let mut names: Vec<PathBuf> = std::fs::read_dir(dir)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        names.retain(|p| p.extension().map(|e| e == "json").unwrap_or(false));
        names.sort();
        names
            .into_iter()
            .map(|p| {
                let v: Value =
                    serde_json::from_str(&std::fs::read_to_string(&p).expect("read")).expect("json");
                let c = serde_json::from_value(v["case"].clone())
                    .unwrap_or_else(|e| panic!("saved case {}: {e}", p.display()));
                (p.file_name().unwrap().to_string_lossy().into_owned(), c)
            })
            .collect()
    }
}
