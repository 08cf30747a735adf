//! Laws of particle clouds: scattering, moving, weighing, resampling, and localising on a map.
use crate::h_assume as assume;
use multicalc::error::*;
use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::mapping::{OccupancyMap, ScanGeometry};
use multicalc::random::{Pcg32, RandomSource};
use multicalc::scalar::{Numeric, VectorFn};

#[derive(Clone)]
struct Tape<const N: usize, const U: usize> {
    normals: [f64; N],
    units: [f64; U],
    at: [usize; 2],
}
impl<const N: usize, const U: usize> RandomSource<f64> for Tape<N, U> {
    fn next_u32(&mut self) -> u32 {
        panic!()
    }
    fn next_unit(&mut self) -> f64 {
        self.at[1] += 1;
        self.units[self.at[1] - 1]
    }
    fn standard_normal(&mut self) -> f64 {
        self.at[0] += 1;
        self.normals[self.at[0] - 1]
    }
    fn get_cache(&mut self) -> Option<f64> {
        None
    }
    fn set_cache(&mut self, _: f64) {}
}
fn h_tape<const N: usize, const U: usize>(normals: [f64; N], units: [f64; U]) -> Tape<N, U> {
    Tape { normals, units, at: [0; 2] }
}
fn h_factor(l: [f64; 3]) -> [[f64; 2]; 2] {
    [[l[0] * l[0] + 0.1, 0.0], [l[1], l[2] * l[2] + 0.1]]
}
fn h_cov(l: [f64; 3]) -> Matrix<2, 2, f64> {
    let l = h_factor(l);
    Matrix::new([[l[0][0] * l[0][0], l[0][0] * l[1][0]], [l[0][0] * l[1][0], l[1][0] * l[1][0] + l[1][1] * l[1][1]]])
}
fn h_kick(l: [f64; 3], n: [f64; 2]) -> [f64; 2] {
    let l = h_factor(l);
    [l[0][0] * n[0], l[1][0] * n[0] + l[1][1] * n[1]]
}
const UNIT: [f64; 3] = [0.9, 0.0, 0.9];
struct HFlow([f64; 2]);
impl VectorFn<2, 2> for HFlow {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        [x[0] * x[1] + S::from_f64(self.0[0]), x[1] * S::from_f64(self.0[1]) - x[0]]
    }
}
fn h_cloud<const N: usize, const U: usize>(m: [f64; 2], l: [f64; 3], q: [f64; 3], t: Tape<N, U>) -> ParticleFilter<2, 1, f64, Tape<N, U>> {
    ParticleFilter::from_random(3, Vector::new(m), h_cov(l), h_cov(q), t).unwrap()
}
fn h_places<const N: usize, const U: usize>(f: &ParticleFilter<2, 1, f64, Tape<N, U>>) -> [[f64; 2]; 3] {
    let p = f.particles();
    [p[0].into_array(), p[1].into_array(), p[2].into_array()]
}
fn h_w<const N: usize, const U: usize>(f: &ParticleFilter<2, 1, f64, Tape<N, U>>) -> [f64; 3] {
    let w = f.weights();
    [w[0], w[1], w[2]]
}
/// a cloud at given places
fn h_at<const U: usize>(x: [[f64; 2]; 3], u: [f64; U]) -> ParticleFilter<2, 1, f64, Tape<9, U>> {
    let n = [x[0][0], x[0][1], x[1][0], x[1][1], x[2][0], x[2][1], 0.25, -0.5, 1.5];
    ParticleFilter::from_random(3, Vector::new([0.0; 2]), Matrix::identity(), Matrix::identity(), h_tape(n, u)).unwrap()
}

pub fn scattered(m: [f64; 2], l: [f64; 3], n: [f64; 6]) -> (([[f64; 2]; 3], [f64; 3], f64, [f64; 2]), ([[f64; 2]; 3], [f64; 3], f64, [f64; 2])) {
    let f = h_cloud(m, l, UNIT, h_tape(n, [0.0; 0]));
    let k = [h_kick(l, [n[0], n[1]]), h_kick(l, [n[2], n[3]]), h_kick(l, [n[4], n[5]])];
    let x = k.map(|k| [m[0] + k[0], m[1] + k[1]]);
    let c = [0, 1].map(|i| (x[0][i] + x[1][i] + x[2][i]) / 3.0);
    ((h_places(&f), h_w(&f), f.effective_sample_size(), f.mean().into_array()), (x, [1.0 / 3.0; 3], 3.0, c))
}
pub fn moved(n: [[f64; 2]; 6], q: [f64; 3], k: [f64; 2]) -> (([[f64; 2]; 3], [f64; 3]), ([[f64; 2]; 3], [f64; 3])) {
    let t = [n[0][0], n[0][1], n[1][0], n[1][1], n[2][0], n[2][1], n[3][0], n[3][1], n[4][0], n[4][1], n[5][0], n[5][1]];
    let mut f = ParticleFilter::<2, 1, f64, _>::from_random(3, Vector::new([0.0; 2]), Matrix::identity(), h_cov(q), h_tape(t, [0.0; 0])).unwrap();
    assume(f.predict(&HFlow(k)).is_ok());
    let x = [0, 1, 2].map(|i| {
        let (x, d) = (n[i], h_kick(q, n[i + 3]));
        [x[0] * x[1] + k[0] + d[0], x[1] * k[1] - x[0] + d[1]]
    });
    ((h_places(&f), h_w(&f)), (x, [1.0 / 3.0; 3]))
}
/// a new process noise is used from the next step; one that is no covariance changes nothing
pub fn noise_replaced(n: [[f64; 2]; 2], q: [f64; 3], k: [f64; 2]) -> ([[f64; 2]; 2], [[f64; 2]; 2]) {
    let go = |bad: bool| {
        let mut f = ParticleFilter::<2, 1, f64, _>::from_random(1, Vector::new([0.0; 2]), Matrix::identity(), Matrix::identity(), h_tape([n[0][0], n[0][1], n[1][0], n[1][1]], [0.0; 0])).unwrap();
        assume(f.set_process_noise(h_cov(q)).is_ok());
        if bad {
            assume(f.set_process_noise(Matrix::new([[1.0, 2.0], [2.0, 1.0]])) == Err(EstimationError::NotPositiveDefinite));
        }
        assume(f.predict(&HFlow(k)).is_ok());
        f.particles()[0].into_array()
    };
    let (x, d) = (n[0], h_kick(q, n[1]));
    let y = [x[0] * x[1] + k[0] + d[0], x[1] * k[1] - x[0] + d[1]];
    ([go(false), go(true)], [y, y])
}
pub fn cloud_refused(m: [f64; 2]) -> bool {
    let e = |c: usize, a: [[f64; 2]; 2], b: [[f64; 2]; 2]| ParticleFilter::<2, 1, f64, _>::from_random(c, Vector::new(m), Matrix::new(a), Matrix::new(b), h_tape([0.0; 6], [0.0; 0])).err();
    let (i, j, k) = ([[1.0, 0.0], [0.0, 1.0]], [[1.0, 0.0], [0.0, -1.0]], [[1.0, 1.0], [1.0, 1.0]]);
    e(0, i, i) == Some(EstimationError::WeightsDegenerate)
        && e(3, j, i) == Some(EstimationError::NotPositiveDefinite)
        && e(3, i, j) == Some(EstimationError::NotPositiveDefinite)
        && e(3, k, i) == Some(EstimationError::NotPositiveDefinite)
        && e(3, i, k) == Some(EstimationError::NotPositiveDefinite)
        && e(3, i, i).is_none()
        && GaussianLikelihood::<2>::new(Matrix::new(j)).err() == Some(EstimationError::NotPositiveDefinite)
        && GaussianLikelihood::<2>::new(Matrix::new(i)).is_ok()
}
/// the whole cloud moves before a particle that is lost is reported
pub fn lost_particle(x: [f64; 2], k: [f64; 2]) -> (([[f64; 2]; 2], bool), ([[f64; 2]; 2], bool)) {
    let n = [f64::NAN, 0.0, x[0], x[1], f64::INFINITY, 1.0];
    let mut f = ParticleFilter::<2, 1, f64, _>::from_random(3, Vector::new([0.0; 2]), Matrix::identity(), Matrix::identity(), h_tape([n[0], n[1], n[2], n[3], n[4], n[5], 1.0, 2.0, 3.0, 4.0, 5.0, 6.0], [0.0; 0])).unwrap();
    let r = f.predict(&HFlow(k)) == Err(EstimationError::NonFinite);
    let p = f.particles()[1].into_array();
    (([p, p], r), ([[x[0] * x[1] + k[0] + 3.0, x[1] * k[1] - x[0] + 4.0]; 2], true))
}

// ---- weighing ----
/// weights are the priors times the exponentials of the scores, over their sum; twice in a row they multiply
pub fn weighed(x: [f64; 3], y: [f64; 3]) -> (([f64; 2], f64, [f64; 2]), ([f64; 2], f64, [f64; 2])) {
    let mut f = h_at([[x[0], y[0]], [x[1], y[1]], [x[2], y[2]]], [0.0; 0]).with_resample_threshold(0.0);
    let ey = y.map(|y| y.exp());
    assume(f.update_with_log_weights(|p| p[0]).is_ok());
    let w = h_w(&f);
    assume(f.update_with_log_weights(|p| p[1]).is_ok());
    let v = h_w(&f);
    let e = [0, 1, 2].map(|i| x[i].exp());
    let g = [0, 1, 2].map(|i| w[i] * ey[i]);
    let r = |w: [f64; 3], e: [f64; 3]| w[0] * (e[0] + e[1] + e[2]) - e[0];
    let s = |w: [f64; 3], e: [f64; 3]| w[2] * (e[0] + e[1] + e[2]) - e[2];
    (([r(w, e), s(w, e)], w[0] + w[1] + w[2], [r(v, g), s(v, g)]), ([0.0; 2], 1.0, [0.0; 2]))
}
struct HHeight(f64);
impl VectorFn<2, 1> for HHeight {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] {
        [x[0] * x[1] + S::from_f64(self.0)]
    }
}
struct HScore(f64);
impl Likelihood<1, f64> for HScore {
    fn log_weight(&self, p: &[f64; 1], m: &[f64; 1]) -> f64 {
        self.0 * (m[0] - 2.0 * p[0])
    }
}
pub fn measured(x: [[f64; 2]; 2], c: f64, k: f64, z: f64) -> ([f64; 2], [f64; 2]) {
    let n = [x[0][0], x[0][1], x[1][0], x[1][1]];
    let mut f = ParticleFilter::<2, 1, f64, _>::from_random(2, Vector::new([0.0; 2]), Matrix::identity(), Matrix::identity(), h_tape(n, [0.0; 0])).unwrap();
    assume(f.update(&HHeight(c), &HScore(k), Vector::new([z])).is_ok());
    let e = [0, 1].map(|i| (k * (z - 2.0 * (x[i][0] * x[i][1] + c))).exp());
    let w = f.weights();
    ([w[0] * (e[0] + e[1]), w[1] * (e[0] + e[1])], e)
}
/// a reading that is not a number is refused and changes nothing; a cloud no particle of which explains the reading is dead
pub fn unexplained(x: [f64; 3], y: [f64; 3]) -> bool {
    let mut f = h_at([[x[0], y[0]], [x[1], y[1]], [x[2], y[2]]], [0.0; 0]).with_resample_threshold(0.0);
    let n = f64::NAN;
    let inf = f64::INFINITY;
    let a = f.update(&HHeight(1.0), &HScore(1.0), Vector::new([n])) == Err(EstimationError::NonFinite);
    let b = f.update(&HHeight(1.0), &HScore(1.0), Vector::new([inf])) == Err(EstimationError::NonFinite);
    let w = h_w(&f);
    let p = h_places(&f);
    let c = w == [1.0 / 3.0; 3] && p == [[x[0], y[0]], [x[1], y[1]], [x[2], y[2]]];
    let d = f.update_with_log_weights(|_| -inf) == Err(EstimationError::WeightsDegenerate);
    let e = f.update_with_log_weights(|_| n) == Err(EstimationError::WeightsDegenerate);
    let g = f.update_with_log_weights(|_| inf) == Err(EstimationError::WeightsDegenerate);
    a && b && c && d && e && g
}
/// a particle given up keeps no weight now, and comes back when the readings turn
pub fn given_up(x: f64) -> (([f64; 3], f64), ([f64; 3], f64)) {
    let mut f = h_at([[0.0, x], [1.0, x], [2.0, x]], [0.0; 0]).with_resample_threshold(0.0);
    assume(f.update_with_log_weights(|p| if p[0] > 0.5 { 0.5 } else { f64::NEG_INFINITY }).is_ok());
    let w = h_w(&f);
    assume(f.update_with_log_weights(|p| if p[0] > 0.5 { f64::NEG_INFINITY } else { 0.5 }).is_ok());
    ((w, h_w(&f)[0]), ([0.0, 0.5, 0.5], 1.0))
}
pub fn heaviest(x: [f64; 2]) -> ([[f64; 2]; 3], [[f64; 2]; 3]) {
    let p = [[1.0, x[0]], [3.0, x[1]], [3.0, x[0]]];
    let mut f = h_at(p, [0.0; 0]).with_resample_threshold(0.0);
    let a = f.maximum_a_posteriori_state().into_array();
    assume(f.update_with_log_weights(|p| p[0]).is_ok());
    let b = f.maximum_a_posteriori_state().into_array();
    assume(f.update_with_log_weights(|p| -3.0 * p[0]).is_ok());
    ([a, b, f.maximum_a_posteriori_state().into_array()], [p[0], p[1], p[0]])
}
/// the mean of the cloud is its weighted one
pub fn weighted_mean(x: [[f64; 2]; 3], s: f64) -> (([f64; 2], f64), ([f64; 2], f64)) {
    let e = s * s + 1.0;
    let l = e.ln();
    let mut f = h_at(x, [0.0; 0]).with_resample_threshold(0.0);
    let mut k = 0;
    let g = f.update_with_log_weights(|_| {
        k += 1;
        if k == 2 { l } else { 0.0 }
    });
    assume(g.is_ok());
    let w = [1.0 / (e + 2.0), e / (e + 2.0), 1.0 / (e + 2.0)];
    let m = [0, 1].map(|i| w[0] * x[0][i] + w[1] * x[1][i] + w[2] * x[2][i]);
    ((f.mean().into_array(), f.effective_sample_size()), (m, (e + 2.0) * (e + 2.0) / (e * e + 2.0)))
}

// ---- resampling ----
/// three weights of 1/2, 1/4 and 1/4
fn h_uneven<const U: usize>(x: [[f64; 2]; 3], u: [f64; U], s: ResamplingScheme, t: f64) -> ParticleFilter<2, 1, f64, Tape<9, U>> {
    let mut f = h_at(x, u).with_resampling(s).with_resample_threshold(t);
    let mut k = 0;
    let l = 2.0_f64.ln();
    let g = f.update_with_log_weights(|_| {
        k += 1;
        if k == 1 { l } else { 0.0 }
    });
    assume(g.is_ok());
    f
}
type C = ([[f64; 2]; 3], [f64; 3]);
fn h_c<const U: usize>(f: &ParticleFilter<2, 1, f64, Tape<9, U>>) -> C {
    (h_places(f), h_w(f))
}
const UNEVEN: [f64; 3] = [0.5, 0.25, 0.25];
const EVEN: [f64; 3] = [1.0 / 3.0; 3];
/// the sample size is 1/(1/4 + 1/8) = 8/3
pub fn resampled_below(x: [[f64; 2]; 3]) -> ([C; 3], [C; 3]) {
    let s = ResamplingScheme::Systematic;
    let go = |t: f64| h_c(&h_uneven(x, [0.9], s, t));
    ([go(2.6), go(2.7), go(3.0)], [(x, UNEVEN), ([x[0], x[1], x[2]], EVEN), ([x[0], x[1], x[2]], EVEN)])
}
/// picks at (u + i)/3 against edges at 1/2 and 3/4
pub fn resampled_schemes(x: [[f64; 2]; 3]) -> ([[[f64; 2]; 3]; 4], [[[f64; 2]; 3]; 4]) {
    let go = |s: ResamplingScheme, u: [f64; 3]| h_c(&h_uneven(x, u, s, 3.0)).0;
    (
        [
            go(ResamplingScheme::Systematic, [0.3, 0.99, 0.01]),
            go(ResamplingScheme::Stratified, [0.3, 0.6, 0.1]),
            go(ResamplingScheme::Multinomial, [0.8, 0.4, 0.6]),
            go(ResamplingScheme::Residual, [0.2, 0.9, 0.5]),
        ],
        [[x[0], x[0], x[2]], [x[0], x[1], x[1]], [x[2], x[0], x[1]], [x[0], x[0], x[2]]],
    )
}
/// by default at half the cloud, and never above
pub fn resampled_by_default(x: [[f64; 2]; 3], s: f64) -> ([C; 2], [C; 2]) {
    let l = [9.0_f64.ln(), 2.0_f64.ln()];
    let _ = s;
    let go = |l: f64| {
        let mut f = h_at(x, [0.5]);
        let mut k = 0;
        let g = f.update_with_log_weights(|_| {
            k += 1;
            if k == 2 { l } else { 0.0 }
        });
        assume(g.is_ok());
        h_c(&f)
    };
    ([go(l[0]), go(l[1])], [([x[1], x[1], x[1]], EVEN), (x, [0.25, 0.5, 0.25])])
}
/// copies are moved apart in proportion to the reach of each coordinate, one draw each, axis by axis
pub fn roughened(x: [f64; 3], y: f64, k: f64) -> (([[f64; 2]; 3], [f64; 3]), ([[f64; 2]; 3], [f64; 3])) {
    let k = k * k + 0.1;
    let (lo, hi) = (x[0], x[0] + (x[1] * x[1] + 0.1));
    let p = [[hi, y], [lo, y], [lo, y]];
    let mut f = h_at(p, [0.3]).with_resample_threshold(0.0).with_roughening(k);
    f.resample();
    let s = k * (hi - lo);
    (h_c(&f), ([[hi + s * 0.25, y], [lo - s * 0.5, y], [lo + s * 1.5, y]], EVEN))
}
/// moved clouds keep their weights
pub fn moving_keeps_weights(x: [[f64; 2]; 3], k: [f64; 2]) -> ([f64; 3], [f64; 3]) {
    let mut f = {
        let n = [x[0][0], x[0][1], x[1][0], x[1][1], x[2][0], x[2][1], 0.25, -0.5, 1.5, 1.0, 2.0, 3.0];
        ParticleFilter::<2, 1, f64, _>::from_random(3, Vector::new([0.0; 2]), Matrix::identity(), Matrix::identity(), h_tape(n, [0.0; 0])).unwrap().with_resample_threshold(0.0)
    };
    let mut j = 0;
    let l = 2.0_f64.ln();
    let g = f.update_with_log_weights(|_| {
        j += 1;
        if j == 1 { l } else { 0.0 }
    });
    assume(g.is_ok());
    assume(f.predict(&HFlow(k)).is_ok());
    (h_w(&f), UNEVEN)
}

// ---- localising ----
fn h_two(h: [f64; 3], s: [f64; 2]) -> MonteCarloLocalizer<3, f64> {
    let c = InitialParticleCloud { particle_count: 2, position_variance: s[0] * s[0], heading_variance: s[1] * s[1] };
    MonteCarloLocalizer::new(h, c, BeamModel { range_deviation: 0.5, agreement_reward: 0.25, mismatch_penalty: -1.5 }, 7).unwrap()
}
fn h_draws() -> [f64; 12] {
    let mut g = Pcg32::<f64>::new(7);
    let mut d = [0.0; 12];
    for x in d.iter_mut() {
        *x = g.standard_normal();
    }
    d
}
fn h_spreads(s: [f64; 2]) -> [f64; 2] {
    s.map(|x| x * x + 0.1)
}
pub fn localizer_scatters(h: [f64; 3], s: [f64; 2]) -> ([[f64; 3]; 2], [[f64; 3]; 2]) {
    let s = h_spreads(s);
    let m = h_two(h, s);
    let p = m.particles();
    let n = h_draws();
    let at = |k: usize| [h[0] + s[0] * n[k], h[1] + s[0] * n[k + 1], h[2] + s[1] * n[k + 2]];
    ([p[0].into_array(), p[1].into_array()], [at(0), at(3)])
}
pub fn localizer_moves(h: [f64; 3], d: [f64; 2], v: [f64; 3]) -> ([[f64; 3]; 2], [[f64; 3]; 2]) {
    let v = v.map(|x| x * x + 0.1);
    let mut m = h_two(h, [0.5, 0.25]);
    let b = [0, 1].map(|i| m.particles()[i].into_array());
    assume(m.set_motion_noise(v.map(|x| x * x)).is_ok());
    assume(m.predict(d[0], d[1]).is_ok());
    let p = m.particles();
    let n = h_draws();
    let at = |i: usize| {
        let k = 6 + 3 * i;
        [b[i][0] + d[0] * b[i][2].cos() + v[0] * n[k], b[i][1] + d[0] * b[i][2].sin() + v[1] * n[k + 1], (b[i][2] + d[1]).wrap_to_pi() + v[2] * n[k + 2]]
    };
    ([p[0].into_array(), p[1].into_array()], [at(0), at(1)])
}
pub fn localizer_moves_quietly(h: [f64; 3], d: [f64; 2]) -> ([f64; 3], [f64; 3]) {
    let mut m = h_two(h, [0.5, 0.25]);
    let b = m.particles()[0].into_array();
    assume(m.predict(d[0], d[1]).is_ok());
    let n = h_draws();
    (m.particles()[0].into_array(), [b[0] + d[0] * b[2].cos() + 0.01 * n[6], b[1] + d[0] * b[2].sin() + 0.01 * n[7], (b[2] + d[1]).wrap_to_pi() + 0.01 * n[8]])
}
type E = ([f64; 3], [[f64; 3]; 3]);
fn h_estimate(p: [[f64; 3]; 2], w: [f64; 2]) -> E {
    let m = [0, 1].map(|i| w[0] * p[0][i] + w[1] * p[1][i]);
    let s = w[0] * p[0][2].sin() + w[1] * p[1][2].sin();
    let c = w[0] * p[0][2].cos() + w[1] * p[1][2].cos();
    let v = |i: usize, j: usize| w[0] * (p[0][i] - m[i]) * (p[0][j] - m[j]) + w[1] * (p[1][i] - m[i]) * (p[1][j] - m[j]);
    let r = s.hypot(c).min(1.0);
    let h = ((1.0 - r) * 2.0).max(1e-6);
    ([m[0], m[1], s.atan2(c)], [[v(0, 0), v(0, 1), 0.0], [v(1, 0), v(1, 1), 0.0], [0.0, 0.0, h]])
}
/// the place is the mean, the heading the mean direction, the spread the second moments and twice what the mean direction falls short of one
pub fn localizer_estimates(h: [f64; 2], s: [f64; 2]) -> (E, E) {
    let s = h_spreads(s);
    let m = h_two([h[0], h[1], 0.4], [s[0], 0.25]);
    let p = [0, 1].map(|i| m.particles()[i].into_array());
    let (x, c) = m.estimate();
    ((x.into_array(), c.into_array()), h_estimate(p, [0.5, 0.5]))
}
/// a map in which the particle decides what a beam meets
struct HMap {
    edge: f64,
    near: [Option<f64>; 3],
    far: [Option<f64>; 3],
    heading: [f64; 2],
}
impl OccupancyMap<f64> for HMap {
    fn columns(&self) -> usize {
        1
    }
    fn rows(&self) -> usize {
        1
    }
    fn resolution(&self) -> f64 {
        1.0
    }
    fn origin(&self) -> [f64; 2] {
        [0.0; 2]
    }
    fn is_occupied(&self, _: usize, _: usize) -> bool {
        false
    }
    fn cast_ray(&self, start: [f64; 2], heading: f64, maximum_range: f64) -> Option<f64> {
        assume(maximum_range == 8.0);
        let i = if start[0] == self.edge { 0 } else { 1 };
        let o = heading - self.heading[i];
        // beams at -1, 0 and 1
        let k = if o < -0.5 { 0 } else if o > 0.5 { 2 } else { 1 };
        (if i == 0 { self.near } else { self.far })[k]
    }
}
/// each beam scores by its miss, agreement on nothing is rewarded and disagreement fined
pub fn localizer_weighs(h: [f64; 2], r: [f64; 2], z: f64, lost: [bool; 2]) -> ((f64, f64), (f64, f64)) {
    let mut m = h_two([h[0], h[1], 0.4], [0.75, 0.25]);
    let p = [0, 1].map(|i| m.particles()[i].into_array());
    let g = ScanGeometry::<3, f64>::try_new(2.0, 8.0).unwrap();
    let z = z * z + 0.1;
    assume(z < 7.9);
    // the middle beam is heard; the outer ones hear nothing or something
    let scan = [if lost[0] { f64::NAN } else { 1.25 }, z, 9.0];
    let map = HMap { edge: p[0][0], near: [Some(1.0), Some(r[0]), None], far: [None, Some(r[1]), if lost[1] { None } else { Some(2.0) }], heading: [p[0][2], p[1][2]] };
    let q = |x: f64| -0.5 * (x / 0.5) * (x / 0.5);
    let near = (if lost[0] { -1.5 } else { q(0.25) }) + q(r[0] - z) + 0.25;
    let far = (if lost[0] { 0.25 } else { -1.5 }) + q(r[1] - z) + if lost[1] { 0.25 } else { -1.5 };
    let (a, b) = (near.exp(), far.exp());
    let (w, v) = (a / (a + b), b / (a + b));
    assume(1.0 / (w * w + v * v) > 1.0);
    assume(m.update(&scan, &map, &g).is_ok());
    let (x, _) = m.estimate();
    ((x[0], x[1]), (w * p[0][0] + v * p[1][0], w * p[0][1] + v * p[1][1]))
}
pub fn localizer_converged(h: [f64; 2], s: f64) -> bool {
    let s = s * s + 0.1;
    let m = h_two([h[0], h[1], 0.4], [s, 0.25]);
    let (_, c) = m.estimate();
    let (a, b) = (c[(0, 0)] + c[(1, 1)], c[(2, 2)]);
    m.particle_count() == 2 && m.particles().len() == 2 && !m.is_converged(a, b + 1.0) && !m.is_converged(a + 1.0, b) && m.is_converged(a + 1.0, b + 1.0) && m.effective_sample_size() == 2.0
}
pub fn localizer_refuses(h: [f64; 3]) -> bool {
    let e = |n: usize, a: f64, b: f64| MonteCarloLocalizer::<3, f64>::new(h, InitialParticleCloud { particle_count: n, position_variance: a, heading_variance: b }, BeamModel::default(), 7).err();
    let mut m = h_two(h, [0.5, 0.25]);
    e(0, 1.0, 1.0) == Some(EstimationError::WeightsDegenerate)
        && e(2, 0.0, 1.0) == Some(EstimationError::NotPositiveDefinite)
        && e(2, 1.0, -1.0) == Some(EstimationError::NotPositiveDefinite)
        && e(2, 1.0, 1.0).is_none()
        && m.set_motion_noise([1.0, 0.0, 1.0]) == Err(EstimationError::NotPositiveDefinite)
        && m.set_motion_noise([1.0, 1.0, 1.0]).is_ok()
}

// ---- longer runs and larger clouds ----
struct HGate(bool);
impl Likelihood<1, f64> for HGate {
    fn log_weight(&self, p: &[f64; 1], _: &[f64; 1]) -> f64 {
        if (p[0] > 0.5) == self.0 { 0.5 } else { f64::NEG_INFINITY }
    }
}
struct HFirst;
impl VectorFn<2, 1> for HFirst {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] {
        [x[0]]
    }
}
/// the same when the score comes from a reading
pub fn given_up_by_reading(x: f64) -> (([f64; 3], [f64; 3]), ([f64; 3], [f64; 3])) {
    let mut f = h_at([[0.0, x], [1.0, x], [2.0, x]], [0.0; 0]).with_resample_threshold(0.0);
    assume(f.update(&HFirst, &HGate(true), Vector::new([0.0])).is_ok());
    let w = h_w(&f);
    assume(f.update(&HFirst, &HGate(false), Vector::new([0.0])).is_ok());
    ((w, h_w(&f)), ([0.0, 0.5, 0.5], [1.0, 0.0, 0.0]))
}
pub fn default_cloud() -> bool {
    let (c, b) = (InitialParticleCloud::<f64>::default(), BeamModel::<f64>::default());
    c.particle_count == 2000 && c.position_variance == 0.16 && c.heading_variance == 4.0 && b.range_deviation == 0.1 && b.agreement_reward == 0.1 && b.mismatch_penalty == -5.0
}
/// each coordinate by its own reach, all particles along one axis before the next
pub fn roughened_axes(x: f64, y: f64, a: f64, b: f64, k: f64) -> ([[f64; 2]; 3], [[f64; 2]; 3]) {
    let k = k * k + 0.1;
    let (a, b) = (a * a + 0.1, b * b + 0.1);
    assume(0.75 * b > 0.0 && 0.25 * b > 0.0 && 0.5 * a > 0.0);
    // every particle is kept: equal weights and an even draw
    let p = [[x + 0.5 * a, y + b], [x, y + 0.25 * b], [x + a, y]];
    let n = [p[0][0], p[0][1], p[1][0], p[1][1], p[2][0], p[2][1], 0.25, -0.5, 1.5, 1.0, -2.0, 3.0];
    let mut f = ParticleFilter::<2, 1, f64, _>::from_random(3, Vector::new([0.0; 2]), Matrix::identity(), Matrix::identity(), h_tape(n, [0.5])).unwrap().with_roughening(k);
    f.resample();
    let (s, t) = (k * a, k * b);
    (h_places(&f), [[p[0][0] + s * 0.25, p[0][1] + t], [p[1][0] - s * 0.5, p[1][1] - t * 2.0], [p[2][0] + s * 1.5, p[2][1] + t * 3.0]])
}
/// asked for outright, the cloud is renewed whatever the threshold, and the draws go on where they stopped
pub fn resampled_twice(x: [[f64; 2]; 3]) -> ([C; 2], [C; 2]) {
    let mut f = h_uneven(x, [0.9, 0.3], ResamplingScheme::Systematic, 0.0);
    f.resample();
    let a = h_c(&f);
    let mut k = 0;
    let l = 2.0_f64.ln();
    let g = f.update_with_log_weights(|_| {
        k += 1;
        if k == 3 { l } else { 0.0 }
    });
    assume(g.is_ok());
    f.resample();
    // weights 1/4, 1/4, 1/2 at 0.1, 0.4333 and 0.7667
    ([a, h_c(&f)], [(x, EVEN), (x, EVEN)])
}
/// scatter, move, weigh, renew, move: every draw in its turn
pub fn whole_cycle(x: [[f64; 2]; 3], m: [[f64; 2]; 3], n: [[f64; 2]; 3], k: [f64; 2]) -> (C, C) {
    let t = [
        x[0][0], x[0][1], x[1][0], x[1][1], x[2][0], x[2][1], m[0][0], m[0][1], m[1][0], m[1][1], m[2][0], m[2][1], n[0][0], n[0][1], n[1][0], n[1][1], n[2][0], n[2][1],
    ];
    let mut f = ParticleFilter::<2, 1, f64, _>::from_random(3, Vector::new([0.0; 2]), Matrix::identity(), Matrix::identity(), h_tape(t, [0.75])).unwrap().with_resample_threshold(2.7);
    assume(f.predict(&HFlow(k)).is_ok());
    let l = 2.0_f64.ln();
    let mut j = 0;
    let g = f.update_with_log_weights(|_| {
        j += 1;
        if j == 3 { l } else { 0.0 }
    });
    assume(g.is_ok());
    // picks at 1/4, 7/12 and 11/12 against edges at 1/4 and 1/2
    assume(f.predict(&HFlow(k)).is_ok());
    let go = |x: [f64; 2], d: [f64; 2]| [x[0] * x[1] + k[0] + d[0], x[1] * k[1] - x[0] + d[1]];
    let one = [go(x[0], m[0]), go(x[1], m[1]), go(x[2], m[2])];
    ((h_places(&f), h_w(&f)), ([go(one[1], n[0]), go(one[2], n[1]), go(one[2], n[2])], EVEN))
}
/// five particles in three coordinates: places, shares and the default threshold of half the cloud
pub fn cloud_of_five(m: [f64; 3], l: [f64; 3], n: [[f64; 3]; 5]) -> (([[f64; 3]; 5], [f64; 3], f64), ([[f64; 3]; 5], [f64; 3], f64)) {
    let l = l.map(|x| x * x + 0.1);
    let mut t = [0.0; 15];
    for i in 0..5 {
        for j in 0..3 {
            t[3 * i + j] = n[i][j];
        }
    }
    let f = ParticleFilter::<3, 1, f64, _>::from_random(5, Vector::new(m), Matrix::from_diagonal(l.map(|x| x * x)), Matrix::identity(), h_tape(t, [0.0; 0])).unwrap();
    let p = f.particles();
    let w = n.map(|n| [m[0] + l[0] * n[0], m[1] + l[1] * n[1], m[2] + l[2] * n[2]]);
    let c = [0, 1, 2].map(|i| (w[0][i] + w[1][i] + w[2][i] + w[3][i] + w[4][i]) / 5.0);
    (([0, 1, 2, 3, 4].map(|i| p[i].into_array()), f.mean().into_array(), f.effective_sample_size()), (w, c, 5.0))
}
pub fn five_renewed_at_half(n: [f64; 5]) -> (([f64; 5], [f64; 5]), ([f64; 5], [f64; 5])) {
    let go = |e: f64| {
        let mut f = ParticleFilter::<1, 1, f64, _>::from_random(5, Vector::new([0.0]), Matrix::identity(), Matrix::identity(), h_tape(n, [0.5])).unwrap();
        let l = e.ln();
        let mut j = 0;
        let g = f.update_with_log_weights(|_| {
            j += 1;
            if j == 2 { l } else { 0.0 }
        });
        assume(g.is_ok());
        [0, 1, 2, 3, 4].map(|i| f.particles()[i][0])
    };
    // with one weight e the sample size is (e + 4)^2/(e^2 + 4): 2.5 at about e = 6.7
    ((go(6.0), go(12.0)), (n, [n[1], n[1], n[1], n[1], n[3]]))
}
