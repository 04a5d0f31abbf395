//! What a worker process is asked to run, and what it reports back.
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;

/// Parameters of one run (a plain mirror of `s2gpp::Parameters`).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct P {
    pub pattern_length: usize,
    pub latent: usize,
    pub rate: usize,
    pub n_threads: usize,
    pub query_length: usize,
    #[serde(default)]
    pub column_start: usize,
    #[serde(default)]
    pub column_end: isize,
    #[serde(default)]
    pub self_correction: bool,
    #[serde(default)]
    pub explainability: bool,
    #[serde(default = "one")]
    pub n_cluster_nodes: usize,
}

fn one() -> usize {
    1
}

impl P {
    pub fn to_params(&self) -> s2gpp::Parameters {
        s2gpp::Parameters {
            pattern_length: self.pattern_length,
            latent: self.latent,
            rate: self.rate,
            n_threads: self.n_threads,
            query_length: self.query_length,
            column_start: self.column_start,
            column_end: self.column_end,
            self_correction: self.self_correction,
            explainability: self.explainability,
            n_cluster_nodes: self.n_cluster_nodes,
            ..Default::default()
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Source {
    /// rows x channels, handed over in memory
    Memory(Vec<Vec<f32>>),
    /// handed over in memory, in column-major order
    MemoryF(Vec<Vec<f32>>),
    /// path of a CSV file, read by the program (this process is the main or only node)
    File(String),
    /// a sub node of a cluster
    Sub(SocketAddr),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Request {
    pub p: P,
    pub source: Source,
    pub local_host: Option<SocketAddr>,
    pub score_path: Option<String>,
    pub contribution_path: Option<String>,
    /// rotated points to use in place of the computed ones: (first id, points)
    pub inject: Option<(usize, Vec<Vec<f32>>)>,
    /// (site, index) -> microseconds
    pub delays: Vec<(String, usize, u64)>,
    pub want_trace: bool,
    /// report recorded stages while the run goes on
    #[serde(default)]
    pub stream: bool,
}

impl Request {
    pub fn memory(p: &P, data: &[Vec<f32>]) -> Self {
        Request {
            p: p.clone(),
            source: Source::Memory(data.to_vec()),
            local_host: None,
            score_path: None,
            contribution_path: None,
            inject: None,
            delays: vec![],
            want_trace: true,
            stream: false,
        }
    }
}

pub type Node = (usize, usize, usize);
pub type Edge = (Node, Node);
pub type Pt = (usize, Vec<f32>, usize);

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Clustered {
    pub segment: usize,
    pub labels: Vec<usize>,
    /// rows x dims
    pub centers: Vec<Vec<f32>>,
}

/// Floats travel as bit patterns, so that NaN and infinities survive.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Bits(pub Vec<u32>);
impl Bits {
    pub fn new<'a>(v: impl IntoIterator<Item = &'a f32>) -> Self {
        Bits(v.into_iter().map(|x| x.to_bits()).collect())
    }
    pub fn f(&self) -> Vec<f32> {
        self.0.iter().map(|x| f32::from_bits(*x)).collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Arr {
    pub shape: Vec<usize>,
    pub v: Bits,
}
impl Arr {
    pub fn at2(&self, i: usize, j: usize) -> f32 {
        f32::from_bits(self.v.0[i * self.shape[1] + j])
    }
    pub fn at3(&self, i: usize, j: usize, k: usize) -> f32 {
        f32::from_bits(self.v.0[(i * self.shape[1] + j) * self.shape[2] + k])
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    Loaded {
        min: Option<Bits>,
        max: Option<Bits>,
        n: Option<usize>,
        phase_space: Arr,
        data_ref: Arr,
    },
    Components {
        components: Arr,
        means: Bits,
    },
    RotationMatrix(Arr),
    Points(Vec<(usize, Bits, usize)>),
    Transitions(Vec<((usize, Bits, usize), (usize, Bits, usize))>),
    Intersections(Vec<(usize, usize, Bits)>),
    Clustering {
        segment: usize,
        labels: Vec<usize>,
        centers: Arr,
    },
    Nodes(Vec<Node>),
    Edges(Vec<Edge>),
    ScoringEdges(Vec<Edge>),
    Score(Option<Bits>),
}

impl Ev {
    pub fn name(&self) -> &'static str {
        match self {
            Ev::Loaded { .. } => "loaded",
            Ev::Components { .. } => "components",
            Ev::RotationMatrix(_) => "rotation",
            Ev::Points(_) => "points",
            Ev::Transitions(_) => "transitions",
            Ev::Intersections(_) => "cuts",
            Ev::Clustering { .. } => "clustering",
            Ev::Nodes(_) => "nodes",
            Ev::Edges(_) => "edges",
            Ev::ScoringEdges(_) => "scoring",
            Ev::Score(_) => "score",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Outcome {
    /// lib mode: the returned score; file mode: None
    Ok(Option<Bits>),
    /// `s2gpp` returned an error
    Err(String),
    /// `s2gpp` panicked in the calling thread
    Panic(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Response {
    pub outcome: Outcome,
    /// messages of all panics in the process during the run
    pub panics: Vec<String>,
    pub trace: Vec<Ev>,
}
