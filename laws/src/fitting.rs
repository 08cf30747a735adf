//! Laws of least-squares fitting, local models and discretisation.
use crate::h_assume as assume;
use multicalc::approximation::{LinearApproximator, QuadraticApproximator};
use multicalc::error::{LinalgError, SolveError};
use multicalc::linear_algebra::Matrix;
use multicalc::optimization::{GaussNewton, LevenbergMarquardt, TerminationReason};
use multicalc::scalar::{Numeric, ScalarFnN, VectorFn};
use multicalc::{q_discrete_white_noise, van_loan, zoh};

type M<const R: usize, const C: usize> = [[f64; C]; R];

// ---- residual functions ----
struct HRay([f64; 2], [f64; 2]);
impl VectorFn<1, 2> for HRay {
    fn eval<S: Numeric>(&self, v: &[S; 1]) -> [S; 2] {
        let k = |x: f64| S::from_f64(x);
        [v[0] * k(self.0[0]) - k(self.1[0]), v[0] * k(self.0[1]) - k(self.1[1])]
    }
}
struct HTall(M<3, 2>, [f64; 3]);
impl VectorFn<2, 3> for HTall {
    fn eval<S: Numeric>(&self, v: &[S; 2]) -> [S; 3] {
        let k = |x: f64| S::from_f64(x);
        [0, 1, 2].map(|i| v[0] * k(self.0[i][0]) + v[1] * k(self.0[i][1]) - k(self.1[i]))
    }
}
struct HCurve([f64; 3], [f64; 3]);
impl VectorFn<1, 2> for HCurve {
    fn eval<S: Numeric>(&self, v: &[S; 1]) -> [S; 2] {
        let q = |c: &[f64; 3]| (v[0] * S::from_f64(c[2]) + S::from_f64(c[1])) * v[0] + S::from_f64(c[0]);
        [q(&self.0), q(&self.1)]
    }
}
struct HOne([f64; 3]);
impl VectorFn<1, 1> for HOne {
    fn eval<S: Numeric>(&self, v: &[S; 1]) -> [S; 1] {
        [(v[0] * S::from_f64(self.0[2]) + S::from_f64(self.0[1])) * v[0] + S::from_f64(self.0[0])]
    }
}
struct HWide;
impl VectorFn<2, 1> for HWide {
    fn eval<S: Numeric>(&self, v: &[S; 2]) -> [S; 1] {
        [v[0] + v[1]]
    }
}

fn h_ray(a: &[f64; 2], b: &[f64; 2]) -> (f64, f64) {
    let x = (a[0] * b[0] + a[1] * b[1]) / (a[0] * a[0] + a[1] * a[1]);
    let (r, s) = (a[0] * x - b[0], a[1] * x - b[1]);
    (x, 0.5 * (r * r + s * s))
}
/// a linear problem is solved by its normal equations
pub fn gn_linear(b: [f64; 2], x: f64) -> ((f64, f64), (f64, f64)) {
    let a = [2.0, -1.0];
    let o = GaussNewton::new().with_gtol(-1.0).with_xtol(-1.0).minimize(&HRay(a, b), &[x]).unwrap();
    ((o.solution[0], o.objective_function), h_ray(&a, &b))
}
pub fn gn_plane(b: [f64; 3]) -> ([f64; 2], [f64; 2]) {
    let a = [[2.0, 1.0], [-1.0, 3.0], [0.0, 1.0]];
    assume(b[0] > 0.1 && b[1] > 0.1 && b[2] > 0.1);
    match GaussNewton::new().with_gtol(-1.0).with_xtol(-1.0).with_ftol(0.9).with_patience(1).minimize(&HTall(a, b), &[0.0, 0.0]) {
        Err(_) => ([0.0; 2], [0.0; 2]),
        Ok(o) => {
            let e = [0, 1, 2].map(|i| a[i][0] * o.solution[0] + a[i][1] * o.solution[1] - b[i]);
            ([0, 1].map(|j| a[0][j] * e[0] + a[1][j] * e[1] + a[2][j] * e[2]), [0.0; 2])
        }
    }
}
fn h_q(c: &[f64; 3], x: f64) -> f64 {
    (c[2] * x + c[1]) * x + c[0]
}
fn h_dq(c: &[f64; 3], x: f64) -> f64 {
    2.0 * c[2] * x + c[1]
}
/// one step minimises the linearised residual, whichever tolerance accepts it
pub fn gn_step(c: [f64; 3], d: [f64; 3], x: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    let (j, k) = (h_dq(&c, x), h_dq(&d, x));
    assume(j * j > 0.01);
    let (r, s) = (h_q(&c, x), h_q(&d, x));
    let y = x - (j * r + k * s) / (j * j + k * k);
    let (p, q) = (h_q(&c, y), h_q(&d, y));
    match GaussNewton::new().with_gtol(-1.0).with_xtol(0.5).with_ftol(0.5).with_patience(1).minimize(&HCurve(c, d), &[x]) {
        Err(e) => ((0.0, 0.0, e == SolveError::DidNotConverge { iters: 2 }), (0.0, 0.0, true)),
        Ok(o) => {
            assume(r * r + s * s > 0.01);
            ((o.solution[0], o.objective_function, o.evaluations == 2), (y, 0.5 * (p * p + q * q), true))
        }
    }
}
/// what ends the search is named, and is true
pub fn gn_reason(c: [f64; 3], x: f64) -> bool {
    let j = h_dq(&c, x);
    assume(j > 0.1 || j < -0.1);
    let r = h_q(&c, x);
    assume(r > 0.1 || r < -0.1);
    let y = x - r / j;
    let q = h_q(&c, y);
    match GaussNewton::new().with_gtol(-1.0).with_xtol(0.5).with_ftol(0.25).with_patience(1).minimize(&HOne(c), &[x]) {
        Err(e) => e == SolveError::DidNotConverge { iters: 2 } && (y - x).abs() > 0.5 * y.abs() && (r.abs() - q.abs()).abs() > 0.25 * r.abs(),
        Ok(o) => {
            let short = (y - x).abs() <= 0.5 * y.abs();
            let flat = (r.abs() - q.abs()).abs() <= 0.25 * r.abs();
            (short || flat) && o.termination == if short { TerminationReason::Xtol } else { TerminationReason::Ftol }
        }
    }
}
pub fn gn_at_minimum(a: [f64; 2], b: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    // the residual at the minimum stands across the ray
    assume(a[0] * a[0] > 0.01 && b * b > 0.01);
    let v = [a[0] * 3.0 - a[1] * b, a[1] * 3.0 + a[0] * b];
    let o = GaussNewton::new().minimize(&HRay(a, v), &[3.0]).unwrap();
    ((o.solution[0], o.objective_function, o.evaluations == 1 && o.termination == TerminationReason::Gtol), (3.0, 0.5 * b * b * (a[0] * a[0] + a[1] * a[1]), true))
}
pub fn gn_at_zero(a: [f64; 2], x: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    assume(a[0] * a[0] > 0.01);
    let o = GaussNewton::new().minimize(&HRay(a, [a[0] * x, a[1] * x]), &[x]).unwrap();
    ((o.solution[0], o.objective_function, o.evaluations == 1 && o.termination == TerminationReason::Gtol), (x, 0.0, true))
}
pub fn gn_backtracks(k: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    assume(k > 0.1 || k < -0.1);
    let f = HOne([k, 0.0, k]);
    let s = GaussNewton::new().with_gtol(-1.0).with_xtol(10.0);
    let o = s.with_backtracking(true).minimize(&f, &[0.5]).unwrap();
    let q = GaussNewton::new().with_gtol(-1.0).with_xtol(10.0).minimize(&f, &[0.5]).unwrap();
    ((o.solution[0], q.solution[0], o.evaluations == 3 && q.evaluations == 2), (-0.125, -0.75, true))
}
pub fn gn_refuses(x: [f64; 2]) -> bool {
    GaussNewton::new().minimize(&HRay([1.0, 1.0], [f64::NAN, 0.0]), &[x[0]]).err() == Some(SolveError::NonFinite)
        && GaussNewton::new().with_patience(0).minimize(&HRay([1.0, 1.0], [1.0, 0.0]), &[x[0]]).err() == Some(SolveError::DidNotConverge { iters: 1 })
        && GaussNewton::new().minimize(&HWide, &x).err() == Some(SolveError::Linalg(LinalgError::Underdetermined))
        && GaussNewton::new().with_gtol(-1.0).minimize(&HRay([0.0, 0.0], [1.0, 0.0]), &[x[0]]).err() == Some(SolveError::Linalg(LinalgError::Singular))
        && GaussNewton::new().with_gtol(-1.0).minimize(&HTall([[1.0, 2.0], [2.0, 4.0], [3.0, 6.0]], [1.0, 0.0, 0.0]), &x).err().is_some()
}
/// the damped method solves linear problems too
pub fn lm_linear(up: bool, r: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    assume(r > 2.0 && r < 20.0);
    let k = if up { 2.0 } else { -2.0 };
    let o = LevenbergMarquardt::new().minimize(&HRay([k, -1.0], [k * r, -r]), &[1.0]).unwrap();
    ((o.solution[0], o.objective_function, o.evaluations == 2), (r, 0.0, true))
}
pub fn lm_at_minimum(b: f64, p: bool) -> ((f64, f64, bool), (f64, f64, bool)) {
    assume(b > 0.5 && b < 20.0);
    let o = LevenbergMarquardt::new().with_scale_diag(p).minimize(&HRay([2.0, -1.0], [6.0 + b, -3.0 + 2.0 * b]), &[3.0]).unwrap();
    ((o.solution[0], o.objective_function, o.evaluations == 1 && o.termination == TerminationReason::Gtol), (3.0, 2.5 * b * b, true))
}
pub fn lm_at_zero(a: [f64; 2], x: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    assume(a[0] * a[0] > 0.01);
    let o = LevenbergMarquardt::new().minimize(&HRay(a, [a[0] * x, a[1] * x]), &[x]).unwrap();
    ((o.solution[0], o.objective_function, o.evaluations == 1 && o.termination == TerminationReason::Gtol), (x, 0.0, true))
}
/// a full step inside the trust region is the undamped step
pub fn lm_inside(k: f64) -> ((f64, f64, bool), (f64, f64, bool)) {
    assume(k > 0.1 || k < -0.1);
    let o = LevenbergMarquardt::new().minimize(&HOne([-2.0 * k, k, 0.0]), &[1.0]).unwrap();
    ((o.solution[0], o.objective_function, o.evaluations == 2 && o.termination == TerminationReason::Gtol), (2.0, 0.0, true))
}
/// a step that would leave the trust region ends on its boundary
pub fn lm_boundary(up: bool, r: f64) -> ((f64, bool), (f64, bool)) {
    assume(r > 6.0 && r < 40.0);
    let k = if up { 2.0 } else { -2.0 };
    // radius one in the scaled variable: the step of a half is accepted and the radius doubled
    let o = LevenbergMarquardt::new().with_stepbound(0.5).with_xtol(0.9).with_gtol(-1.0).with_ftol(-1.0).minimize(&HOne([-r * k, k, 0.0]), &[1.0]).unwrap();
    ((o.solution[0], o.termination == TerminationReason::Xtol), (1.5, true))
}
/// a step that enlarges the residual is undone
pub fn lm_rejects(k: f64) -> ((f64, f64), (f64, f64)) {
    assume(k > 0.1 || k < -0.1);
    let o = LevenbergMarquardt::new().with_xtol(0.6).with_gtol(-1.0).with_ftol(-1.0).minimize(&HOne([k, 0.0, k]), &[0.5]).unwrap();
    let e = o.solution[0] * o.solution[0] + 1.0;
    ((o.objective_function, if e <= 1.25 { 1.0 } else { 0.0 }), (0.5 * k * k * e * e, 1.0))
}
pub fn lm_refuses(x: [f64; 2]) -> bool {
    LevenbergMarquardt::new().minimize(&HRay([1.0, 1.0], [f64::NAN, 0.0]), &[x[0]]).err() == Some(SolveError::NonFinite)
        && LevenbergMarquardt::new().with_patience(0).minimize(&HRay([1.0, 1.0], [1.0, 0.0]), &[x[0]]).err() == Some(SolveError::DidNotConverge { iters: 1 })
        && LevenbergMarquardt::new().minimize(&HWide, &x).err() == Some(SolveError::Linalg(LinalgError::Underdetermined))
}

// ---- local models: degenerate scores ----
struct HPoly([f64; 3]);
impl ScalarFnN<2> for HPoly {
    fn eval<S: Numeric>(&self, v: &[S; 2]) -> S {
        v[0] * S::from_f64(self.0[0]) + v[0] * v[1] * S::from_f64(self.0[1]) + S::from_f64(self.0[2])
    }
}
pub fn metrics_undefined(c: [f64; 3], x: [f64; 4]) -> bool {
    let f = HPoly(c);
    let p = [0.5, 0.25];
    let lin = LinearApproximator::new().approximate(&f, &p).unwrap();
    let quad = QuadraticApproximator::new().approximate(&f, &p).unwrap();
    let one = lin.prediction_metrics(&[[x[0], x[1]]], &f);
    // as many points as coefficients leave no freedom; a single point has no spread
    let three = lin.prediction_metrics(&[[x[0], x[1]], [x[2], x[3]], [1.0, 2.0]], &f);
    let six = quad.prediction_metrics(&[[x[0], x[1]], [x[2], x[3]], [1.0, 2.0], [2.0, 1.0], [3.0, 4.0], [0.0, 1.0]], &f);
    one.r_squared.is_nan() && one.adjusted_r_squared.is_nan() && three.adjusted_r_squared.is_nan() && six.adjusted_r_squared.is_nan()
}
pub fn metrics_kahan(c: [f64; 3], x: [f64; 4], q: bool) -> ([f64; 3], [f64; 3]) {
    let f = HPoly(c);
    let p = [0.5, 0.25];
    let pts = [[x[0], x[1]], [x[2], x[3]], [1.0, 2.0]];
    if q {
        let m = QuadraticApproximator::new().approximate(&f, &p).unwrap().prediction_metrics(&pts, &f);
        let n = QuadraticApproximator::new().with_kahan_summation().approximate(&f, &p).unwrap().prediction_metrics(&pts, &f);
        ([m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error], [n.mean_absolute_error, n.mean_squared_error, n.root_mean_squared_error])
    } else {
        let m = LinearApproximator::new().approximate(&f, &p).unwrap().prediction_metrics(&pts, &f);
        let n = LinearApproximator::new().with_kahan_summation().approximate(&f, &p).unwrap().prediction_metrics(&pts, &f);
        ([m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error], [n.mean_absolute_error, n.mean_squared_error, n.root_mean_squared_error])
    }
}

// ---- discretisation ----
/// an input held over the step: A G = (F - 1) B
pub fn zoh_scalar(a: f64, b: f64, t: f64) -> (f64, f64) {
    // the scaled norm is brought below a half by one halving, or needs none
    assume(t > 0.0 && (a * t).abs() <= 1.0 && (b * t).abs() <= 0.5);
    let (f, g) = zoh::<1, 1, 2, f64>(Matrix::new([[a]]), Matrix::new([[b]]), t).unwrap();
    (a * g[(0, 0)], (f[(0, 0)] - 1.0) * b)
}
pub fn zoh_system(a: M<2, 2>, b: M<2, 1>) -> (M<2, 1>, M<2, 1>) {
    let s = |i: usize, j: usize| (a[i][j] * 0.25).abs();
    assume(s(0, 0) + s(1, 0) <= 0.5 && s(0, 1) + s(1, 1) <= 0.5 && (b[0][0] * 0.25).abs() + (b[1][0] * 0.25).abs() <= 0.5);
    let (f, g) = zoh::<2, 1, 3, f64>(Matrix::new(a), Matrix::new(b), 0.25).unwrap();
    let (f, g) = (f.into_array(), g.into_array());
    let l = [0, 1].map(|i| [a[i][0] * g[0][0] + a[i][1] * g[1][0]]);
    let r = [0, 1].map(|i| [f[i][0] * b[0][0] + f[i][1] * b[1][0] - b[i][0]]);
    (l, r)
}
pub fn zoh_integrators(b: f64, c: f64) -> ((M<2, 2>, M<2, 2>), (M<2, 2>, M<2, 2>)) {
    assume(b > 0.0 && b <= 0.25 && c > 0.0 && c <= 0.25);
    let t = 0.5;
    let (f, g) = zoh::<2, 2, 4, f64>(Matrix::new([[0.0, 1.0], [0.0, 0.0]]), Matrix::new([[b, 0.0], [0.0, c]]), t).unwrap();
    ((f.into_array(), g.into_array()), ([[1.0, t], [0.0, 1.0]], [[b * t, c * t * t / 2.0], [0.0, c * t]]))
}
pub fn zoh_no_time(a: M<2, 2>, b: M<2, 1>) -> ((M<2, 2>, M<2, 1>), (M<2, 2>, M<2, 1>)) {
    let (f, g) = zoh::<2, 1, 3, f64>(Matrix::new(a), Matrix::new(b), 0.0).unwrap();
    ((f.into_array(), g.into_array()), ([[1.0, 0.0], [0.0, 1.0]], [[0.0], [0.0]]))
}
/// the noise gathered over the step: A Q' + Q' A^T = F Q F^T - Q
pub fn van_loan_scalar(a: f64, q: f64, t: f64) -> (f64, f64) {
    assume(t > 0.0 && (-a * t).abs() <= 0.5 && (q * t).abs() + (a * t).abs() <= 0.5);
    let (f, d) = van_loan::<1, 2, f64>(Matrix::new([[a]]), Matrix::new([[q]]), t).unwrap();
    (2.0 * a * d[(0, 0)], f[(0, 0)] * q * f[(0, 0)] - q)
}
pub fn van_loan_chain(s: f64) -> ((M<2, 2>, M<2, 2>), (M<2, 2>, M<2, 2>)) {
    let t = 0.5;
    assume(s > 0.0 && s <= 0.25);
    let q = [2.0 * s, s, 1.5 * s];
    let (f, d) = van_loan::<2, 4, f64>(Matrix::new([[0.0, 1.0], [0.0, 0.0]]), Matrix::new([[q[0], q[1]], [q[1], q[2]]]), t).unwrap();
    let (t2, t3) = (t * t, t * t * t);
    let m = q[1] * t + q[2] * t2 / 2.0;
    ((f.into_array(), d.into_array()), ([[1.0, t], [0.0, 1.0]], [[q[0] * t + q[1] * t2 + q[2] * t3 / 3.0, m], [m, q[2] * t]]))
}
pub fn van_loan_system(s: f64) -> (M<2, 2>, M<2, 2>) {
    assume(s > 0.0 && s <= 0.25);
    let n = Matrix::new([[2.0 * s, -s], [-s, 1.5 * s]]);
    let m = Matrix::new([[-0.5, 1.0], [0.25, 0.75]]);
    let (f, d) = van_loan::<2, 4, f64>(m, n, 0.5).unwrap();
    ((m * d + d * m.transpose() + n).into_array(), (f * n * f.transpose()).into_array())
}
pub fn discretise_refuses(a: f64, b: f64, t: f64) -> bool {
    let t = -(t * t + 0.1);
    let z = |t: f64| zoh::<1, 1, 2, f64>(Matrix::new([[a]]), Matrix::new([[b]]), t).err() == Some(LinalgError::InvalidTimestep);
    let v = |t: f64| van_loan::<1, 2, f64>(Matrix::new([[a]]), Matrix::new([[b]]), t).err() == Some(LinalgError::InvalidTimestep);
    z(t) && v(t) && z(f64::NAN) && v(f64::NAN) && z(f64::INFINITY) && v(f64::INFINITY)
}
/// white acceleration, jerk or snap held over the step
pub fn white_noise(t: f64, v: f64) -> ((M<2, 2>, M<3, 3>, M<4, 4>), (M<2, 2>, M<3, 3>, M<4, 4>)) {
    let w = [t * t * t / 6.0, t * t / 2.0, t, 1.0];
    let g = [0, 1, 2, 3].map(|i| [0, 1, 2, 3].map(|j| w[i] * w[j] * v));
    (
        (q_discrete_white_noise::<2, f64>(t, v).into_array(), q_discrete_white_noise::<3, f64>(t, v).into_array(), q_discrete_white_noise::<4, f64>(t, v).into_array()),
        ([0, 1].map(|i| [0, 1].map(|j| g[i + 1][j + 1])), [0, 1, 2].map(|i| [0, 1, 2].map(|j| g[i + 1][j + 1])), g),
    )
}
