//! The recorded stages of one run in a handy form.
use crate::proto::*;

pub type Point = (usize, Vec<f32>, usize);

#[derive(Clone, Debug)]
pub struct Loaded {
    pub min: Option<Vec<f32>>,
    pub max: Option<Vec<f32>>,
    pub n: Option<usize>,
    pub phase_space: Arr,
    pub data_ref: Arr,
}

#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub loaded: Option<Loaded>,
    pub components: Vec<(Arr, Vec<f32>)>,
    pub rotation: Option<Arr>,
    pub points: Option<Vec<Point>>,
    pub transitions: Option<Vec<(Point, Point)>>,
    /// (segment, time step, coordinates)
    pub intersections: Option<Vec<(usize, usize, Vec<f32>)>>,
    pub clusterings: Vec<(usize, Vec<usize>, Arr)>,
    pub nodes: Option<Vec<Node>>,
    pub edges: Option<Vec<Edge>>,
    pub scoring_edges: Option<Vec<Edge>>,
    pub score: Option<Vec<f32>>,
}

impl Trace {
    pub fn new(evs: Vec<Ev>) -> Self {
        let mut t = Trace::default();
        let pt = |(i, c, s): (usize, Bits, usize)| (i, c.f(), s);
        for e in evs {
            match e {
                Ev::Loaded { min, max, n, phase_space, data_ref } => {
                    t.loaded = Some(Loaded {
                        min: min.map(|x| x.f()),
                        max: max.map(|x| x.f()),
                        n,
                        phase_space,
                        data_ref,
                    })
                }
                Ev::Components { components, means } => t.components.push((components, means.f())),
                Ev::RotationMatrix(m) => t.rotation = Some(m),
                Ev::Points(p) => t.points = Some(p.into_iter().map(pt).collect()),
                Ev::Transitions(x) => {
                    t.transitions = Some(x.into_iter().map(|(a, b)| (pt(a), pt(b))).collect())
                }
                Ev::Intersections(x) => {
                    t.intersections = Some(x.into_iter().map(|(s, i, c)| (s, i, c.f())).collect())
                }
                Ev::Clustering { segment, labels, centers } => {
                    t.clusterings.push((segment, labels, centers))
                }
                Ev::Nodes(n) => t.nodes = Some(n),
                Ev::Edges(e) => t.edges = Some(e),
                Ev::ScoringEdges(e) => t.scoring_edges = Some(e),
                Ev::Score(s) => t.score = s.map(|s| s.f()),
            }
        }
        t
    }
}
