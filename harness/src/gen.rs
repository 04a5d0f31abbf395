//! Generators of parameters, series and trajectories. A case holds the recipe of a series, not its
//! values, so that shrinking works on the recipe.
use crate::proto::P;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Deterministic noise: a hash of (seed, index) mapped to [-1, 1).
pub fn noise(seed: u32, i: usize) -> f32 {
    let mut x = (seed as u64) << 32 ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^= x >> 33;
    ((x >> 40) as f32 / (1u64 << 24) as f32) * 2.0 - 1.0
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    Sine,
    /// repeats exactly with an integer period
    Periodic,
    Square,
    Saw,
    Ramp,
    Step,
    Impulse,
    Walk,
    Noise,
    Quantised,
    Chirp,
    Const,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Chan {
    pub shape: Shape,
    pub period: u16,
    pub phase: f32,
    pub amp: f32,
    pub offset: f32,
    pub noise: f32,
    pub seed: u32,
    /// power of two the whole channel is multiplied with
    pub exp: i8,
    /// stretches in which the channel behaves differently: (start in 1/1000, length, kind)
    pub odd: Vec<(u16, u8, u8)>,
    /// where the channel lies around zero: 1 starts at zero, 2 ends at zero, 3 positive part, 4 negative part
    #[serde(default)]
    pub zero: u8,
}

impl Chan {
    pub fn values(&self, n: usize) -> Vec<f32> {
        let per = self.period.max(2) as usize;
        let mut walk = 0.0f32;
        let mut out: Vec<f32> = (0..n)
            .map(|i| {
                let t = i as f32;
                let a = std::f32::consts::TAU;
                let v = match self.shape {
                    Shape::Sine => (a * t / per as f32 + self.phase).sin(),
                    Shape::Periodic => (a * (i % per) as f32 / per as f32 + self.phase).sin(),
                    Shape::Square => {
                        if (i % per) * 2 < per {
                            1.0
                        } else {
                            -1.0
                        }
                    }
                    Shape::Saw => (i % per) as f32 / per as f32,
                    Shape::Ramp => t / n as f32,
                    Shape::Step => {
                        if i * 2 < n {
                            0.0
                        } else {
                            1.0
                        }
                    }
                    Shape::Impulse => {
                        if i == n / 2 {
                            1.0
                        } else {
                            0.0
                        }
                    }
                    Shape::Walk => {
                        walk += noise(self.seed ^ 77, i);
                        walk
                    }
                    Shape::Noise => noise(self.seed ^ 99, i),
                    Shape::Quantised => (noise(self.seed ^ 55, i) * 3.0).round(),
                    Shape::Chirp => (a * t * t / (per as f32 * n as f32) + self.phase).sin(),
                    Shape::Const => 1.0,
                };
                self.offset + self.amp * v + self.noise * noise(self.seed, i)
            })
            .collect();
        for (at, len, kind) in &self.odd {
            let from = *at as usize * n / 1000;
            let to = (from + *len as usize).min(n);
            for i in from..to {
                out[i] = match kind % 4 {
                    0 => -out[i],
                    1 => self.offset,
                    2 => out[i] * 2.0,
                    _ => out[i] + self.amp,
                };
            }
        }
        let min = out.iter().cloned().fold(f32::INFINITY, f32::min);
        let max = out.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
        let mid = min + (max - min) / 2.0;
        for v in out.iter_mut() {
            match self.zero {
                1 => *v -= min,
                2 => *v -= max,
                3 => *v = (*v - mid).max(0.0),
                4 => *v = (*v - mid).min(0.0),
                _ => {}
            }
        }
        // magnitudes up to 1e12
        let largest = out.iter().fold(1e-30f64, |a, b| a.max(b.abs() as f64));
        let f = 2f32.powi((self.exp as i32).min((1e12 / largest).log2().floor() as i32));
        out.iter().map(|v| v * f).collect()
    }
}

/// A run on a series.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeriesCase {
    pub p: P,
    /// rows beyond the shortest possible series
    pub extra: usize,
    pub chans: Vec<Chan>,
}

impl SeriesCase {
    pub fn n(&self) -> usize {
        self.p.pattern_length + self.p.query_length + self.extra
    }
    pub fn rows(&self) -> Vec<Vec<f32>> {
        let n = self.n();
        let c: Vec<Vec<f32>> = self.chans.iter().map(|c| c.values(n)).collect();
        (0..n).map(|i| c.iter().map(|c| c[i]).collect()).collect()
    }
    pub fn labels(&self) -> Vec<String> {
        let mut l = vec![
            format!("channels={}", self.chans.len()),
            format!("threads={}", self.p.n_threads),
            format!("self_correction={}", self.p.self_correction),
        ];
        for c in &self.chans {
            l.push(format!("shape={:?}", c.shape));
        }
        l
    }
}

fn zero() -> impl Strategy<Value = u8> {
    prop_oneof![12 => Just(0u8), 1 => 1u8..3, 1 => 1u8..5]
}

/// Periods that are no round numbers, moderate noise: series that produce a rich graph.
fn rich_chan() -> impl Strategy<Value = Chan> {
    (
        prop_oneof![6 => Just(Shape::Sine), 1 => Just(Shape::Chirp), 1 => Just(Shape::Saw),
            1 => Just(Shape::Square), 1 => Just(Shape::Walk)],
        3u16..40,
        -3.0f32..3.0,
        prop_oneof![0.2f32..5.0, Just(1.0f32)],
        prop_oneof![Just(0.0f32), -20.0f32..20.0],
        prop_oneof![0.01f32..0.5, 0.01f32..0.1],
        any::<u32>(),
        prop_oneof![4 => Just(0i8), 1 => -20i8..20],
        prop::collection::vec((0u16..1000, 1u8..30, any::<u8>()), 0..4),
        zero(),
    )
        .prop_map(|(shape, period, phase, amp, offset, noise, seed, exp, odd, zero)| Chan {
            shape,
            period,
            phase,
            amp,
            offset,
            noise,
            seed,
            exp,
            odd,
            zero,
        })
}

/// Anything finite, degenerate series included (constant channels only if `constant`).
fn any_chan(constant: bool) -> impl Strategy<Value = Chan> {
    (
        prop_oneof![
            Just(Shape::Periodic),
            Just(Shape::Square),
            Just(Shape::Saw),
            Just(Shape::Ramp),
            Just(Shape::Step),
            Just(Shape::Impulse),
            Just(Shape::Walk),
            Just(Shape::Noise),
            Just(Shape::Quantised),
            Just(Shape::Sine),
            Just(if constant { Shape::Const } else { Shape::Noise }),
        ],
        2u16..30,
        -3.0f32..3.0,
        prop_oneof![Just(1.0f32), 0.2f32..5.0],
        prop_oneof![Just(0.0f32), -20.0f32..20.0, Just(1000.0f32)],
        prop_oneof![2 => Just(0.0f32), 1 => 0.01f32..0.5],
        any::<u32>(),
        prop_oneof![6 => Just(0i8), 1 => -40i8..40],
        prop::collection::vec((0u16..1000, 1u8..30, any::<u8>()), 0..2),
        zero(),
    )
        .prop_map(move |(shape, period, phase, amp, offset, noise, seed, exp, odd, zero)| Chan {
            shape,
            period,
            phase,
            amp,
            offset,
            noise: if constant { noise } else { noise.max(1e-3) },
            seed,
            exp,
            odd,
            zero,
        })
}

pub fn chans(max: usize, degenerate: bool) -> BoxedStrategy<Vec<Chan>> {
    let rich = prop::collection::vec(rich_chan(), 1..=max);
    if degenerate {
        prop_oneof![
            3 => rich,
            2 => prop::collection::vec(any_chan(true), 1..=max),
            1 => prop::collection::vec(any_chan(false), 1..=max),
        ]
        .boxed()
    } else {
        prop_oneof![5 => rich, 1 => prop::collection::vec(any_chan(false), 1..=max)].boxed()
    }
}

pub fn params(max_pl: usize) -> BoxedStrategy<P> {
    (
        prop_oneof![29 => 4usize..=max_pl, 1 => max_pl..=4 * max_pl],
        0.0f64..1.0,
        prop_oneof![16 => 3usize..40, 8 => 40usize..120, 8 => Just(100usize), 4 => 3usize..8,
            1 => 1usize..3, 1 => 120usize..600],
        prop_oneof![4 => Just(1usize), 16 => 1usize..=8, 1 => 9usize..40],
        prop_oneof![4 => 0usize..30, 1 => Just(0usize)],
        prop::bool::weighted(0.15),
        any::<bool>(),
    )
        .prop_map(|(pl, lat, rate, n_threads, more, short_q, sc)| {
            let latent = 1 + ((pl - 3) as f64 * lat) as usize;
            let query_length = if short_q { 1 + more % pl } else { pl + more };
            P {
                pattern_length: pl,
                latent: latent.min(pl - 3),
                rate,
                n_threads,
                query_length,
                column_start: 0,
                column_end: 0,
                self_correction: sc,
                explainability: false,
                n_cluster_nodes: 1,
            }
        })
        .boxed()
}

pub fn series_case(degenerate: bool) -> BoxedStrategy<SeriesCase> {
    prop_oneof![
        300 => (
            params(40),
            prop_oneof![8 => 0usize..10, 48 => 10usize..250, 8 => 250usize..700, 1 => 700usize..2500],
            prop_oneof![240 => chans(4, degenerate), 9 => chans(10, degenerate), 1 => chans(40, degenerate)],
        )
            .prop_map(|(p, extra, chans)| SeriesCase { p, extra, chans }),
        1 => long_series(degenerate, 30_000),
    ]
    .boxed()
}

/// Behaviour that depends on the number of rows.
pub fn long_series(degenerate: bool, rows: usize) -> BoxedStrategy<SeriesCase> {
    (params(20), 5_000..rows, chans(2, degenerate))
        .prop_map(|(mut p, extra, chans)| {
            p.rate = p.rate.min(120);
            p.pattern_length = p.pattern_length.min(30);
            p.latent = p.latent.min(p.pattern_length - 3);
            SeriesCase { p, extra, chans }
        })
        .boxed()
}

/// More rows than 16 bits count, with little work per row.
pub fn very_long(degenerate: bool) -> BoxedStrategy<SeriesCase> {
    (params(8), 66_000usize..90_000, chans(1, degenerate))
        .prop_map(|(mut p, extra, chans)| {
            p.rate = 3 + p.rate % 10;
            p.pattern_length = p.pattern_length.min(10);
            p.latent = p.latent.min(p.pattern_length - 3);
            p.n_threads = p.n_threads.min(8);
            SeriesCase { p, extra, chans }
        })
        .boxed()
}

/// A trajectory in the embedded space, given move by move.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Traj {
    pub channels: usize,
    pub start: f32,
    /// (forward move in segments, radius mode, special place)
    pub moves: Vec<(f32, u8, u8)>,
    pub repeat: usize,
    pub jitter: f32,
    pub seed: u32,
    pub exp: i8,
    /// every repetition has exactly the same points
    #[serde(default)]
    pub closed: bool,
}

impl Traj {
    pub fn points(&self, rate: usize) -> Vec<Vec<f32>> {
        let mut a = self.start as f64;
        let mut out = vec![];
        let d = self.channels;
        let scale = 2f32.powi(self.exp as i32);
        let most = match self.repeat {
            0..=5000 => 2000,
            5001..=10_000 => 20_000,
            _ => 80_000,
        };
        for _ in 0..self.repeat.min(most / self.moves.len().max(1)).max(1) {
            if self.closed {
                a = self.start as f64;
            }
            for (k, (step, mode, special)) in self.moves.iter().enumerate() {
                a += *step as f64;
                let i = if self.closed { k } else { out.len() };
                let r = 1.0 + (mode % 4) as f32 * 1.5 + self.jitter * noise(self.seed, i);
                let phi = a / rate as f64 * std::f64::consts::TAU;
                let (mut x, mut y) = ((r as f64 * phi.cos()) as f32, (r as f64 * phi.sin()) as f32);
                match special {
                    1 => (x, y) = (r, 0.0),
                    2 => (x, y) = (0.0, r),
                    3 => (x, y) = (-r, 0.0),
                    4 => (x, y) = (0.0, -r),
                    5 => (x, y) = (r, -1e-9),
                    6 => (x, y) = (-x, -y),
                    _ => {}
                }
                let mut p = vec![0f32; 2 * d];
                for (j, v) in p.iter_mut().enumerate() {
                    *v = match j {
                        0 => x,
                        1 => y,
                        _ => {
                            ((mode >> (j % 4)) & 3) as f32
                                + 0.5
                                + self.jitter * noise(self.seed ^ (j as u32 * 7919), i)
                        }
                    } * scale;
                }
                out.push(p);
            }
        }
        out
    }
}

pub fn traj(rate: usize, max_channels: usize) -> BoxedStrategy<Traj> {
    let half = rate as f32 / 2.0;
    let r = rate as f32;
    let mv = (
        prop_oneof![
            8 => 0.1f32..1.6,
            3 => 0.1f32..half,
            1 => (half - 1.5)..(half + 1.5),
            2 => -2.0f32..0.0,
            1 => Just(0.0f32),
            1 => Just(1.0f32),
            1 => -r..r,
        ],
        prop_oneof![3 => Just(0u8), 2 => 0u8..4, 1 => any::<u8>()],
        prop_oneof![20 => Just(0u8), 1 => 0u8..7],
    );
    // runs of steady motion, so that long turns are frequent
    let steady = (0.3f32..(half.min(6.0) + 0.4), 0u8..4, 3usize..40)
        .prop_map(|(s, m, k)| (0..k).map(|_| (s, m, 0u8)).collect::<Vec<_>>());
    let parts = prop::collection::vec(
        prop_oneof![2 => prop::collection::vec(mv.clone(), 1..25), 1 => steady],
        1..5,
    )
    .prop_map(|v| v.concat());
    let backward = prop::collection::vec((-3.0f32..0.3, 0u8..4, Just(0u8)), 5..60);
    // about as many moves forward as backward
    let balanced = prop::collection::vec((-2.5f32..2.3, 0u8..4, Just(0u8)), 5..60);
    // very many points, few of which change the segment
    let slow = prop::collection::vec((-0.02f32..0.1, 0u8..4, Just(0u8)), 5..60);
    let giant = (0.0f32..r, slow, any::<u32>()).prop_map(|(start, moves, seed)| Traj {
        channels: 1,
        start,
        moves,
        repeat: 80_000,
        jitter: 0.05,
        seed,
        exp: 0,
        closed: false,
    });
    let usual = (
        1usize..=max_channels,
        0.0f32..r,
        prop_oneof![12 => parts, 2 => backward, 1 => balanced],
        prop_oneof![160 => Just(1usize), 160 => 2usize..5, 80 => 5usize..10, 16 => 10usize..300, 1 => Just(10_000usize)],
        prop_oneof![Just(0.0f32), 0.01f32..0.4, Just(0.05f32)],
        any::<u32>(),
        prop_oneof![6 => Just(0i8), 1 => -8i8..12],
        prop::bool::weighted(0.12),
    )
        .prop_map(|(channels, start, moves, repeat, jitter, seed, exp, closed)| Traj {
            channels,
            start,
            moves,
            repeat,
            jitter,
            seed,
            exp,
            closed,
        });
    prop_oneof![400 => usual, 1 => giant].boxed()
}

/// A run whose embedded points are replaced by a trajectory.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TrajCase {
    pub rate: usize,
    pub n_threads: usize,
    /// query length, in 1/1000 of the possible ones
    pub query: u16,
    pub self_correction: bool,
    pub traj: Traj,
    pub delays: Vec<(u8, u16, u16)>,
}

impl TrajCase {
    /// A request that runs the pipeline on the trajectory; None if there are too few points.
    pub fn request(&self) -> Option<(crate::proto::Request, usize)> {
        let pts = self.traj.points(self.rate);
        let m = pts.len();
        if m < 3 {
            return None;
        }
        let q = 1 + (self.query as usize * (m - 2)) / 1000;
        let pl = 4;
        let p = P {
            pattern_length: pl,
            latent: 1,
            rate: self.rate,
            n_threads: self.n_threads,
            query_length: q,
            column_start: 0,
            column_end: 0,
            self_correction: self.self_correction,
            explainability: false,
            n_cluster_nodes: 1,
        };
        let n = m + pl - 1;
        let rows: Vec<Vec<f32>> = (0..n)
            .map(|i| (0..self.traj.channels).map(|c| noise(c as u32 + 1, i)).collect())
            .collect();
        let mut r = crate::proto::Request::memory(&p, &rows);
        r.inject = Some((0, pts));
        r.delays = crate::checks::delays(&self.delays);
        Some((r, m))
    }
}

pub fn one_delay() -> BoxedStrategy<(u8, u16, u16)> {
    (
        prop_oneof![3 => 0u8..3, 1 => 3u8..5],
        prop_oneof![1 => 0u16..9, 1 => 9u16..40, 2 => 1000u16..1100],
        0u16..2000,
    )
        .boxed()
}

pub fn delay_list() -> BoxedStrategy<Vec<(u8, u16, u16)>> {
    prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(one_delay(), 1..6)]
        .boxed()
}

pub fn traj_case() -> BoxedStrategy<TrajCase> {
    prop_oneof![16 => 3usize..16, 12 => 16usize..40, 8 => 40usize..130, 4 => Just(100usize),
        1 => 1usize..3, 1 => 130usize..600]
        .prop_flat_map(|rate| {
            (
                Just(rate),
                prop_oneof![19 => 1usize..=6, 1 => 7usize..40],
                prop_oneof![4 => 0u16..400, 1 => 0u16..1000, 1 => Just(0u16)],
                prop::bool::weighted(0.4),
                traj(rate, 3),
                delay_list(),
            )
        })
        .prop_map(|(rate, n_threads, query, self_correction, traj, delays)| TrajCase {
            rate,
            n_threads,
            query,
            self_correction,
            traj,
            delays,
        })
        .boxed()
}
