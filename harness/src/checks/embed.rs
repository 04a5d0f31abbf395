//! C03 (embedding, statistics, reference curve) and C04 (principal axes, rotation, points).
use super::*;
use crate::driver::*;
use crate::gen::*;
use crate::proto::*;
use crate::trace::*;
use ndarray::{Array1, Array2};
use ndarray_linalg::{Eigh, UPLO};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    s: SeriesCase,
    column_major: bool,
    delays: Vec<(u8, u16, u16)>,
}

fn strategy() -> BoxedStrategy<Case> {
    (prop_oneof![700 => series_case(true), 1 => very_long(true)], prop::bool::weighted(0.15), delay_list())
        .prop_map(|(s, column_major, delays)| Case { s, column_major, delays })
        .boxed()
}

fn run(c: &Case, ctx: &mut Ctx) -> Result<(Vec<Vec<f32>>, Trace), Verdict> {
    let rows = c.s.rows();
    let mut req = Request::memory(&c.s.p, &rows);
    if c.column_major {
        req.source = Source::MemoryF(rows.clone());
    }
    req.delays = delays(&c.delays);
    let resp = ok_response(ctx.exec.run(&req))?;
    Ok((rows, Trace::new(resp.trace)))
}

/// Judges what loading produced for the rows of a whole series.
pub fn judge_loaded(rows: &[Vec<f32>], p: &P, l: &Loaded) -> Result<(), String> {
    judge_stats(rows, p, l)?;
    judge_phase_space(rows, p, l)
}

pub fn judge_stats(rows: &[Vec<f32>], p: &P, l: &Loaded) -> Result<(), String> {
    let (n, d) = (rows.len(), rows[0].len());
    let w = p.pattern_length - p.latent;
    if l.n != Some(n) {
        return Err(format!("{:?} rows reported, the series has {n}", l.n));
    }
    for c in 0..d {
        let col = rows.iter().map(|r| r[c]);
        let lo = col.clone().fold(f32::INFINITY, f32::min);
        let hi = col.fold(f32::NEG_INFINITY, f32::max);
        for (what, got, want) in [("minimum", &l.min, lo), ("maximum", &l.max, hi)] {
            match got {
                Some(g) if g.len() == d && g[c] == want => {}
                g => return Err(format!("the {what} of channel {c} is {want}, reported {g:?}")),
            }
        }
        if l.data_ref.shape != [100, w, d] {
            return Err(format!("reference curve of shape {:?}, expected [100, {w}, {d}]", l.data_ref.shape));
        }
        for i in 0..100 {
            let want =
                p.latent as f64 * (lo as f64 + (hi as f64 - lo as f64) * i as f64 / 99.0);
            let tol = 1e-5 * p.latent as f64 * (lo.abs().max(hi.abs()) as f64) + 1e-37;
            for j in 0..w {
                let got = l.data_ref.at3(i, j, c) as f64;
                if !((got - want).abs() <= tol) {
                    return Err(format!(
                        "entry ({i}, {j}) of the reference curve of channel {c} is {got}, expected {want}"
                    ));
                }
            }
        }
    }
    Ok(())
}

pub fn judge_phase_space(rows: &[Vec<f32>], p: &P, l: &Loaded) -> Result<(), String> {
    let (n, d) = (rows.len(), rows[0].len());
    let w = p.pattern_length - p.latent;
    let m = n + 1 - p.pattern_length;
    if l.phase_space.shape != [m, w, d] {
        return Err(format!("embedding of shape {:?}, expected [{m}, {w}, {d}]", l.phase_space.shape));
    }
    for i in 0..m {
        for j in 0..w {
            for c in 0..d {
                let mut want = 0.0;
                let mut mag = 0.0;
                for k in 0..p.latent {
                    let v = rows[i + j + k][c] as f64;
                    want += v;
                    mag += v.abs();
                }
                let got = l.phase_space.at3(i, j, c) as f64;
                if !((got - want).abs() <= 2e-6 * mag + 1e-37) {
                    return Err(format!(
                        "entry ({i}, {j}) of the embedding of channel {c} is {got}, expected {want}"
                    ));
                }
            }
        }
    }
    Ok(())
}

fn eval_c03(c: &Case, ctx: &mut Ctx) -> Verdict {
    let (rows, t) = match run(c, ctx) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let l = match &t.loaded {
        Some(l) => l,
        None => return Verdict::Fail("no embedding".into()),
    };
    match judge_loaded(&rows, &c.s.p, l) {
        Err(m) => Verdict::Fail(m),
        Ok(()) => {
            let mut lab = c.s.labels();
            lab.push(format!("latent>1={}", c.s.p.latent > 1));
            pass(c.s.p.latent > 1 && rows[0].len() > 1, lab)
        }
    }
}

#[derive(Default, Debug)]
pub struct AxesStats {
    pub variance_checked: usize,
    pub flat: usize,
    pub matrix_checked: usize,
    pub worst: f64,
}

/// `ps`: embedding of the whole series (rows x columns x channels).
pub fn judge_axes(
    ps: &Arr,
    data_ref: &Arr,
    components: &[(Arr, Vec<f32>)],
    rot: &Arr,
    st: &mut AxesStats,
) -> Result<(), String> {
    let (m, w, d) = (ps.shape[0], ps.shape[1], ps.shape[2]);
    if components.len() != d {
        return Err(format!("principal axes for {} channels, expected {d}", components.len()));
    }
    if rot.shape != [3, 3, d] {
        return Err(format!("rotations of shape {:?}", rot.shape));
    }
    for c in 0..d {
        let (comp, means) = &components[c];
        if comp.shape != [3, w] || means.len() != w {
            return Err(format!("principal axes of shape {:?}, {} means, expected 3 x {w}", comp.shape, means.len()));
        }
        let x = Array2::from_shape_fn((m, w), |(i, j)| ps.at3(i, j, c) as f64);
        let maxabs = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        let mu: Array1<f64> = x.mean_axis(ndarray::Axis(0)).unwrap();
        for j in 0..w {
            // every addition to a sum in f32 rounds it
            let mut sum = 0.0;
            let largest = x.column(j).iter().fold(0.0f64, |a, v| {
                sum += v;
                a.max(f64::abs(sum))
            });
            let mtol = 1e-5 * maxabs + largest / (1u32 << 22) as f64 + 1e-30;
            if !((means[j] as f64 - mu[j]).abs() <= mtol) {
                return Err(format!(
                    "mean {j} of channel {c} is {}, expected {}", means[j], mu[j]
                ));
            }
        }
        let xc = &x - &mu;
        let cov = xc.t().dot(&xc) / m as f64;
        let cm = Array2::from_shape_fn((3, w), |(i, j)| comp.at2(i, j) as f64);
        if cm.iter().any(|v| !v.is_finite()) {
            return Err(format!("principal axes of channel {c} are not finite"));
        }
        let g = cm.dot(&cm.t());
        for i in 0..3 {
            for j in 0..3 {
                let want = f64::from(i == j);
                if (g[[i, j]] - want).abs() > 1e-3 {
                    return Err(format!(
                        "principal axes {i} and {j} of channel {c} have the product {}, expected {want}", g[[i, j]]
                    ));
                }
            }
            if comp.at2(i, 0) < 0.0 {
                return Err(format!("principal axis {i} of channel {c} starts with {}", comp.at2(i, 0)));
            }
        }
        let (ev, _) = cov.eigh(UPLO::Lower).map_err(|e| format!("eigenvalues: {e}"))?;
        let mut ev: Vec<f64> = ev.to_vec();
        ev.sort_by(|a, b| b.partial_cmp(a).unwrap());
        let shift: f64 = (0..w).map(|j| (means[j] as f64 - mu[j]).powi(2)).sum();
        let noise = (3e-6 * maxabs).powi(2) * w as f64 + shift;
        if ev[0] > noise * 100.0 {
            st.variance_checked += 1;
            let tol = 3e-4 * ev[0] + noise * 3.0;
            for k in 0..3 {
                let row = cm.row(k);
                let got = row.dot(&cov.dot(&row));
                st.worst = st.worst.max((got - ev[k]).abs() / tol);
                if (got - ev[k]).abs() > tol {
                    return Err(format!(
                        "principal axis {k} of channel {c} captures a variance of {got}, the largest possible is {} (tolerance {tol})",
                        ev[k]
                    ));
                }
            }
        } else {
            st.flat += 1;
        }
        // rotation
        let r0 = Array1::from_shape_fn(w, |j| data_ref.at3(0, j, c) as f64 - means[j] as f64);
        let a = cm.dot(&r0);
        let len = a.dot(&a).sqrt();
        // the reference curve can be far larger than the embedding (latent a multiple of the period)
        let largest = r0.iter().fold(maxabs, |a, b| a.max(b.abs()));
        let err = 2e-6 * largest * (w as f64).sqrt();
        let got = Array2::from_shape_fn((3, 3), |(i, j)| rot.at3(i, j, c) as f64);
        if got.iter().any(|v| !v.is_finite()) {
            return Err(format!("the rotation of channel {c} is not finite"));
        }
        if len > err * 1000.0 {
            let a = &a / len;
            let (vx, vy) = (a[1], -a[0]);
            let cth = a[2];
            let s2 = vx * vx + vy * vy;
            if s2 > 1e-3 {
                st.matrix_checked += 1;
                let k = ndarray::arr2(&[[0.0, 0.0, vy], [0.0, 0.0, -vx], [-vy, vx, 0.0]]);
                let want =
                    Array2::<f64>::eye(3) + &k + k.dot(&k) * ((1.0 - cth) / s2);
                let tol = (2e-5 + 4.0 * err / len) / s2 + 1e-4;
                for (g, w) in got.iter().zip(want.iter()) {
                    if (g - w).abs() > tol {
                        return Err(format!(
                            "the rotation of channel {c} is {got}, expected {want} (tolerance {tol})"
                        ));
                    }
                }
            }
        }
        let o = got.dot(&got.t());
        for i in 0..3 {
            for j in 0..3 {
                if len > err * 1000.0 && (o[[i, j]] - f64::from(i == j)).abs() > 5e-3 {
                    return Err(format!("the rotation of channel {c} is not orthogonal: {got}"));
                }
            }
        }
    }
    Ok(())
}

/// Points from the (recorded) embedding, means, axes and rotations; `first`: expected first id.
pub fn judge_points(
    ps: &Arr,
    components: &[(Arr, Vec<f32>)],
    rot: &Arr,
    points: &[Point],
    first: usize,
) -> Result<(), String> {
    let (m, w, d) = (ps.shape[0], ps.shape[1], ps.shape[2]);
    if points.len() != m {
        return Err(format!("{} points for {m} windows", points.len()));
    }
    for c in 0..d {
        let (comp, means) = &components[c];
        for i in 0..m {
            let mut red = [0.0f64; 3];
            let mut mag = 0.0f64;
            for j in 0..w {
                let x = ps.at3(i, j, c) as f64 - means[j] as f64;
                mag = mag.max(ps.at3(i, j, c).abs() as f64).max(means[j].abs() as f64);
                for (k, r) in red.iter_mut().enumerate() {
                    *r += x * comp.at2(k, j) as f64;
                }
            }
            let tol = 3e-6 * mag * w as f64 + 1e-5 * red.iter().map(|x| x.abs()).sum::<f64>() + 1e-35;
            let (id, coords, _) = &points[i];
            if *id != first + i {
                return Err(format!("point {} of the series has the time step {id}, expected {}", i, first + i));
            }
            if coords.len() != 2 * d {
                return Err(format!("a point with {} coordinates for {d} channels", coords.len()));
            }
            for k in 0..2 {
                let want: f64 = (0..3).map(|q| rot.at3(k, q, c) as f64 * red[q]).sum();
                let got = coords[k * d + c] as f64;
                if !((got - want).abs() <= tol) {
                    return Err(format!(
                        "coordinate {k} of channel {c} of point {} is {got}, expected {want} (tolerance {tol})",
                        first + i
                    ));
                }
            }
        }
    }
    Ok(())
}

fn eval_c04(c: &Case, ctx: &mut Ctx) -> Verdict {
    let (rows, t) = match run(c, ctx) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let (l, rot, points) = match (&t.loaded, &t.rotation, &t.points) {
        (Some(l), Some(r), Some(p)) => (l, r, p),
        _ => return Verdict::Fail("a stage is missing".into()),
    };
    let mut st = AxesStats::default();
    if let Err(m) = judge_axes(&l.phase_space, &l.data_ref, &t.components, rot, &mut st)
        .and_then(|_| judge_points(&l.phase_space, &t.components, rot, points, 0))
    {
        return Verdict::Fail(m);
    }
    ctx.count("channels with checked variance", st.variance_checked as u64);
    ctx.count("flat channels", st.flat as u64);
    ctx.count("rotations checked", st.matrix_checked as u64);
    let mut lab = c.s.labels();
    if st.worst > 0.1 {
        lab.push("variance off by more than 10 % of the tolerance".into());
    }
    let m = rows.len() + 1 - c.s.p.pattern_length;
    if m < c.s.p.n_threads {
        lab.push("more threads than windows".into());
    }
    if m % c.s.p.n_threads != 0 {
        lab.push("windows not divisible by threads".into());
    }
    pass(st.variance_checked > 0 && c.s.p.n_threads > 1, lab)
}

pub fn c03() -> Check<Case> {
    Check {
        id: "C03",
        rule: "whole series from channel recipes (incl. degenerate ones), row- or column-major; non-trivial: several channels and a latent size above 1",
        strategy,
        eval: eval_c03,
        quick: 3000,
        thorough: 60000,
        shards: 8,
        assumptions: &["the observation points report what the stages hand over"],
    }
}

pub fn c04() -> Check<Case> {
    Check {
        id: "C04",
        rule: "whole series from channel recipes (incl. degenerate ones), 1-8 threads, delayed helpers; non-trivial: several threads and a channel whose captured variance could be compared with the eigenvalues",
        strategy,
        eval: eval_c04,
        quick: 2500,
        thorough: 60000,
        shards: 8,
        assumptions: &["the observation points report what the stages hand over"],
    }
}
