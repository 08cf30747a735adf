//! Filters: every estimate, covariance and correction against the equations that define it.
use crate::h_assume as assume;
use multicalc::error::EstimationError;
use multicalc::estimation::*;
use multicalc::linear_algebra::*;
use multicalc::ode::ExponentialMap;
use multicalc::random::RandomSource;
use multicalc::spatial::*;
use multicalc::{Numeric, VectorFn};

type M<const R: usize, const C: usize> = [[f64; C]; R];
fn h_mul<const R: usize, const K: usize, const C: usize>(a: M<R, K>, b: M<K, C>) -> M<R, C> {
    let mut o = [[0.0; C]; R];
    for i in 0..R {
        for j in 0..C {
            for k in 0..K {
                o[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    o
}
fn h_t<const R: usize, const C: usize>(a: M<R, C>) -> M<C, R> {
    let mut o = [[0.0; R]; C];
    for i in 0..R {
        for j in 0..C {
            o[j][i] = a[i][j];
        }
    }
    o
}
fn h_plus<const R: usize, const C: usize>(a: M<R, C>, b: M<R, C>) -> M<R, C> {
    let mut o = a;
    for i in 0..R {
        for j in 0..C {
            o[i][j] += b[i][j];
        }
    }
    o
}
fn h_minus<const R: usize, const C: usize>(a: M<R, C>, b: M<R, C>) -> M<R, C> {
    let mut o = a;
    for i in 0..R {
        for j in 0..C {
            o[i][j] -= b[i][j];
        }
    }
    o
}
fn h_mv<const R: usize, const C: usize>(a: M<R, C>, x: [f64; C]) -> [f64; R] {
    let mut o = [0.0; R];
    for i in 0..R {
        for j in 0..C {
            o[i] += a[i][j] * x[j];
        }
    }
    o
}
fn h_add<const N: usize>(a: [f64; N], b: [f64; N]) -> [f64; N] {
    let mut o = a;
    for i in 0..N {
        o[i] += b[i];
    }
    o
}
fn h_sub<const N: usize>(a: [f64; N], b: [f64; N]) -> [f64; N] {
    let mut o = a;
    for i in 0..N {
        o[i] -= b[i];
    }
    o
}
fn h_sc<const N: usize>(s: f64, a: [f64; N]) -> [f64; N] {
    let mut o = a;
    for i in 0..N {
        o[i] *= s;
    }
    o
}
fn h_dot<const N: usize>(a: [f64; N], b: [f64; N]) -> f64 {
    let mut s = 0.0;
    for i in 0..N {
        s += a[i] * b[i];
    }
    s
}
fn h_id<const N: usize>() -> M<N, N> {
    let mut o = [[0.0; N]; N];
    for i in 0..N {
        o[i][i] = 1.0;
    }
    o
}
fn h_diag<const N: usize>(d: [f64; N]) -> M<N, N> {
    let mut o = [[0.0; N]; N];
    for i in 0..N {
        o[i][i] = d[i];
    }
    o
}
fn h_inv2(s: M<2, 2>) -> M<2, 2> {
    let d = s[0][0] * s[1][1] - s[0][1] * s[1][0];
    [[s[1][1] / d, -s[0][1] / d], [-s[1][0] / d, s[0][0] / d]]
}
fn h_s2(p: [f64; 3]) -> M<2, 2> {
    [[p[0], p[1]], [p[1], p[2]]]
}
/// a covariance from its factor
fn h_cov2(l: [f64; 3]) -> M<2, 2> {
    assume(l[0] * l[0] > 0.01 && l[2] * l[2] > 0.01);
    [[l[0] * l[0], l[0] * l[1]], [l[0] * l[1], l[1] * l[1] + l[2] * l[2]]]
}
fn h_model<const N: usize, const K: usize>(f: M<N, N>, h: M<K, N>, q: M<N, N>, r: M<K, K>) -> KalmanModel<N, K> {
    KalmanModel { state_transition: Matrix::new(f), measurement_model: Matrix::new(h), process_noise: Matrix::new(q), measurement_noise: Matrix::new(r) }
}
fn h_kf<const N: usize, const K: usize>(x: [f64; N], p: M<N, N>, f: M<N, N>, h: M<K, N>, q: M<N, N>, r: M<K, K>) -> KalmanFilter<N, K> {
    KalmanFilter::new(Vector::new(x), Matrix::new(p), h_model(f, h, q, r))
}
fn h_kfs<const N: usize, const K: usize>(k: &KalmanFilter<N, K>) -> ([f64; N], M<N, N>) {
    (*k.state().as_array(), k.covariance().into_array())
}

// ---- the linear filter ----
pub fn kf_predict(x: [f64; 3], p: M<3, 3>, f: M<3, 3>, q: M<3, 3>) -> (([f64; 3], M<3, 3>), ([f64; 3], M<3, 3>)) {
    let mut k = h_kf(x, p, f, [[1.0, 0.0, 0.0]], q, [[1.0]]);
    k.predict();
    (h_kfs(&k), (h_mv(f, x), h_plus(h_mul(h_mul(f, p), h_t(f)), q)))
}
pub fn kf_predict_with_control(x: [f64; 2], p: M<2, 2>, f: M<2, 2>, q: M<2, 2>, b: M<2, 3>, u: [f64; 3]) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let mut k = h_kf(x, p, f, [[1.0, 0.0]], q, [[1.0]]);
    k.predict_with_control(Matrix::new(b), Vector::new(u));
    (h_kfs(&k), (h_add(h_mv(f, x), h_mv(b, u)), h_plus(h_mul(h_mul(f, p), h_t(f)), q)))
}
pub fn kf_update_scalar(x: f64, p: f64, h: f64, r: f64, z: f64) -> ([f64; 4], [f64; 4]) {
    let mut k = h_kf([x], [[p]], [[1.0]], [[h]], [[0.0]], [[r]]);
    assume(k.update(Vector::new([z])).is_ok());
    let s = h * p * h + r;
    let g = p * h / s;
    ([k.state()[0], k.covariance()[(0, 0)], k.innovation()[0], k.innovation_covariance()[(0, 0)]], [x + g * (z - h * x), (1.0 - g * h) * p, z - h * x, s])
}
fn h_gain_state(x: [f64; 2], p: [f64; 3], h: M<2, 2>, r: [f64; 3], z: [f64; 2]) -> ([f64; 2], M<2, 2>, M<2, 2>, M<2, 2>) {
    let (p, r) = (h_s2(p), h_s2(r));
    let s = h_plus(h_mul(h_mul(h, p), h_t(h)), r);
    let g = h_mul(h_mul(p, h_t(h)), h_inv2(s));
    (h_add(x, h_mv(g, h_sub(z, h_mv(h, x)))), h_mul(h_minus(h_id(), h_mul(g, h)), p), s, g)
}
pub fn kf_update_one_reading(x: [f64; 2], p: [f64; 3], h: [f64; 2], r: f64, z: f64) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let mut k = h_kf(x, h_s2(p), h_id(), [h], [[0.0; 2]; 2], [[r]]);
    assume(k.update(Vector::new([z])).is_ok());
    let ph = h_mv(h_s2(p), h);
    let s = h_dot(h, ph) + r;
    let g = h_sc(1.0 / s, ph);
    (h_kfs(&k), (h_add(x, h_sc(z - h_dot(h, x), g)), h_minus(h_s2(p), [h_sc(g[0], ph), h_sc(g[1], ph)])))
}
pub fn kf_update_two_readings(x: [f64; 2], p: [f64; 3], h: M<2, 2>, r: [f64; 3], z: [f64; 2]) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let mut k = h_kf(x, h_s2(p), h_id(), h, [[0.0; 2]; 2], h_s2(r));
    assume(k.update(Vector::new(z)).is_ok());
    let o = h_gain_state(x, p, h, r, z);
    (h_kfs(&k), (o.0, o.1))
}
pub fn kf_update_naive(x: [f64; 2], p: [f64; 3], h: M<2, 2>, r: [f64; 3], z: [f64; 2]) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let k = h_kf(x, h_s2(p), h_id(), h, [[0.0; 2]; 2], h_s2(r));
    let (mut a, mut b) = (k, k.with_covariance_update(CovarianceUpdate::Naive));
    assume(a.update(Vector::new(z)).is_ok() && b.update(Vector::new(z)).is_ok());
    (h_kfs(&a), h_kfs(&b))
}
pub fn kf_innovation(x: [f64; 2], p: [f64; 3], h: M<2, 2>, r: [f64; 3], z: [f64; 2]) -> (([f64; 2], M<2, 2>, f64), ([f64; 2], M<2, 2>, f64)) {
    let mut k = h_kf(x, h_s2(p), h_id(), h, [[0.0; 2]; 2], h_s2(r));
    assume(k.update(Vector::new(z)).is_ok());
    let o = h_gain_state(x, p, h, r, z);
    let v = h_sub(z, h_mv(h, x));
    ((*k.innovation().as_array(), k.innovation_covariance().into_array(), k.normalized_innovation_squared().unwrap()), (v, o.2, h_dot(v, h_mv(h_inv2(o.2), v))))
}
/// what the reading adds is its precision: P+ (P^-1 + H' R^-1 H) = 1
pub fn kf_update_adds_information(x: [f64; 2], l: [f64; 3], h: [f64; 2], r: f64, z: f64) -> (M<2, 2>, M<2, 2>) {
    let p = h_cov2(l);
    assume(r > 0.01);
    let mut k = h_kf(x, p, h_id(), [h], [[0.0; 2]; 2], [[r]]);
    k.update(Vector::new([z])).unwrap();
    let i = h_plus(h_inv2(p), [h_sc(h[0] / r, h), h_sc(h[1] / r, h)]);
    (h_mul(k.covariance().into_array(), i), h_id())
}
/// two independent readings folded in together or one after the other leave the same belief
pub fn kf_updates_in_turn(x: [f64; 2], l: [f64; 3], h: M<2, 2>, r: [f64; 2], z: [f64; 2]) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let p = h_cov2(l);
    assume(r[0] > 0.01 && r[1] > 0.01);
    let mut a = h_kf(x, p, h_id(), h, [[0.0; 2]; 2], h_diag(r));
    a.update(Vector::new(z)).unwrap();
    let mut b = h_kf(x, p, h_id(), [h[0]], [[0.0; 2]; 2], [[r[0]]]);
    b.update(Vector::new([z[0]])).unwrap();
    b.set_measurement_model(Matrix::new([h[1]]));
    b.set_measurement_noise(Matrix::new([[r[1]]]));
    b.update(Vector::new([z[1]])).unwrap();
    (h_kfs(&a), h_kfs(&b))
}
pub fn kf_joseph_symmetric(x: [f64; 2], p: [f64; 3], h: M<2, 2>, r: [f64; 3], z: [f64; 2]) -> (f64, f64) {
    let mut k = h_kf(x, h_s2(p), h_id(), h, [[0.0; 2]; 2], h_s2(r));
    assume(k.update(Vector::new(z)).is_ok());
    (k.covariance()[(0, 1)], k.covariance()[(1, 0)])
}
/// an optimal gain is stationary: Joseph's form is the error covariance of whatever gain was used
pub fn kf_update_refuses_non_finite(x: [f64; 2], p: [f64; 3], h: M<2, 2>, r: [f64; 3], z: f64) -> bool {
    let k = h_kf(x, h_s2(p), h_id(), h, [[0.0; 2]; 2], h_s2(r));
    let bad = [[z, f64::NAN], [f64::INFINITY, z], [z, f64::NEG_INFINITY]];
    bad.iter().all(|&m| {
        let mut a = k;
        a.update(Vector::new(m)) == Err(EstimationError::NonFinite) && h_same(h_kfs(&a), h_kfs(&k))
    })
}
fn h_same<const N: usize>(a: ([f64; N], M<N, N>), b: ([f64; N], M<N, N>)) -> bool {
    a.0 == b.0 && a.1 == b.1
}
/// the reading is used exactly when the innovation covariance is positive, and otherwise changes no belief
pub fn kf_update_needs_positive(x: f64, p: f64, h: f64, r: f64, z: f64) -> (f64, f64) {
    let mut k = h_kf([x], [[p]], [[1.0]], [[h]], [[0.0]], [[r]]);
    let s = h * p * h + r;
    let o = k.update(Vector::new([z]));
    if s > 0.0 {
        assume(s > 1e-9);
        (if o.is_ok() { 1.0 } else { 0.0 }, 1.0)
    } else {
        let e = if o == Err(EstimationError::NotPositiveDefinite) { 1.0 } else { 0.0 };
        (e * 7.0 + (k.state()[0] - x) * 1.7 + (k.covariance()[(0, 0)] - p) * 2.3, 7.0)
    }
}
pub fn kf_setters(x: [f64; 2], p: [f64; 3], f: M<2, 2>, q: [f64; 3], h: [f64; 2], r: f64, z: f64) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let mut a = h_kf([0.0; 2], h_s2(p), h_id(), [[1.0, 0.0]], [[0.0; 2]; 2], [[1.0]]);
    a.set_state(Vector::new(x));
    a.set_state_transition(Matrix::new(f));
    a.set_process_noise(Matrix::new(h_s2(q)));
    a.set_measurement_model(Matrix::new([h]));
    a.set_measurement_noise(Matrix::new([[r]]));
    a.predict();
    let mut b = h_kf(x, h_s2(p), f, [h], h_s2(q), [[r]]);
    b.predict();
    assume(a.update(Vector::new([z])).is_ok() && b.update(Vector::new([z])).is_ok());
    (h_kfs(&a), h_kfs(&b))
}

// ---- the extended filter ----
#[derive(Clone, Copy)]
struct HLinear<const N: usize, const K: usize>(M<K, N>);
impl<const N: usize, const K: usize> VectorFn<N, K> for HLinear<N, K> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; K] {
        core::array::from_fn(|i| {
            let mut o = S::ZERO;
            for j in 0..N {
                o += S::from_f64(self.0[i][j]) * x[j];
            }
            o
        })
    }
}
struct HCurved;
impl VectorFn<2, 2> for HCurved {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        [x[0] + x[1].sin(), x[0] * x[1]]
    }
}
struct HReading;
impl VectorFn<2, 1> for HReading {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] {
        [x[0] * x[0] + x[1].exp() * x[0]]
    }
}
fn h_ekf<const N: usize, const K: usize>(x: [f64; N], p: M<N, N>, q: M<N, N>, r: M<K, K>) -> ExtendedKalmanFilter<N, K> {
    ExtendedKalmanFilter::new(Vector::new(x), Matrix::new(p), Matrix::new(q), Matrix::new(r))
}
fn h_ekfs<const N: usize, const K: usize>(k: &ExtendedKalmanFilter<N, K>) -> ([f64; N], M<N, N>) {
    (*k.state().as_array(), k.covariance().into_array())
}
pub fn ekf_linear_predict(x: [f64; 3], p: M<3, 3>, f: M<3, 3>, q: M<3, 3>) -> (([f64; 3], M<3, 3>), ([f64; 3], M<3, 3>)) {
    let mut a = h_kf(x, p, f, [[1.0, 0.0, 0.0]], q, [[1.0]]);
    let mut b = h_ekf(x, p, q, [[1.0]]);
    a.predict();
    b.predict(&HLinear(f)).unwrap();
    (h_ekfs(&b), h_kfs(&a))
}
fn h_both(x: [f64; 2], p: [f64; 3], h: M<2, 2>, r: [f64; 3], z: [f64; 2], u: CovarianceUpdate) -> (([f64; 2], M<2, 2>, [f64; 2], M<2, 2>, f64), ([f64; 2], M<2, 2>, [f64; 2], M<2, 2>, f64)) {
    let mut a = h_kf(x, h_s2(p), h_id(), h, [[0.0; 2]; 2], h_s2(r)).with_covariance_update(u);
    let mut b = h_ekf(x, h_s2(p), [[0.0; 2]; 2], h_s2(r)).with_covariance_update(u);
    assume(a.update(Vector::new(z)).is_ok() && b.update(&HLinear(h), Vector::new(z)).is_ok());
    let (m, n) = (h_kfs(&a), h_ekfs(&b));
    (
        (n.0, n.1, *b.innovation().as_array(), b.innovation_covariance().into_array(), b.normalized_innovation_squared().unwrap()),
        (m.0, m.1, *a.innovation().as_array(), a.innovation_covariance().into_array(), a.normalized_innovation_squared().unwrap()),
    )
}
pub fn ekf_linear_update(x: [f64; 2], p: [f64; 3], h: M<2, 2>, r: [f64; 3], z: [f64; 2]) -> (([f64; 2], M<2, 2>, [f64; 2], M<2, 2>, f64), ([f64; 2], M<2, 2>, [f64; 2], M<2, 2>, f64)) {
    h_both(x, p, h, r, z, CovarianceUpdate::Joseph)
}
pub fn ekf_linear_update_naive(x: [f64; 2], p: [f64; 3], h: M<2, 2>, r: [f64; 3], z: [f64; 2]) -> (([f64; 2], M<2, 2>, [f64; 2], M<2, 2>, f64), ([f64; 2], M<2, 2>, [f64; 2], M<2, 2>, f64)) {
    h_both(x, p, h, r, z, CovarianceUpdate::Naive)
}
pub fn ekf_curved_predict(x: [f64; 2], p: [f64; 3], q: [f64; 3]) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let mut b = h_ekf(x, h_s2(p), h_s2(q), [[1.0]]);
    b.predict(&HCurved).unwrap();
    let f = [[1.0, x[1].cos()], [x[1], x[0]]];
    (h_ekfs(&b), ([x[0] + x[1].sin(), x[0] * x[1]], h_plus(h_mul(h_mul(f, h_s2(p)), h_t(f)), h_s2(q))))
}
pub fn ekf_curved_update(x: [f64; 2], p: [f64; 3], r: f64, z: f64) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let mut b = h_ekf(x, h_s2(p), [[0.0; 2]; 2], [[r]]);
    let e = x[1].exp();
    let mut a = h_kf(x, h_s2(p), h_id(), [[2.0 * x[0] + e, e * x[0]]], [[0.0; 2]; 2], [[r]]);
    let predicted = x[0] * x[0] + e * x[0];
    assume(b.update(&HReading, Vector::new([z])).is_ok());
    // the linear filter about the same point sees the same residual
    assume(a.update(Vector::new([z - predicted + (2.0 * x[0] + e) * x[0] + e * x[0] * x[1]])).is_ok());
    (h_ekfs(&b), h_kfs(&a))
}
pub fn ekf_update_with_residual(x: [f64; 2], p: [f64; 3], r: f64, z: f64) -> (([f64; 2], M<2, 2>, f64), ([f64; 2], M<2, 2>, f64)) {
    let mut a = h_ekf(x, h_s2(p), [[0.0; 2]; 2], [[r]]);
    let mut b = a;
    assume(a.update(&HReading, Vector::new([z])).is_ok());
    assume(b.update_with_residual(&HReading, Vector::new([z - x[0] * x[0] - x[1].exp() * x[0]])).is_ok());
    let (m, n) = (h_ekfs(&a), h_ekfs(&b));
    ((m.0, m.1, a.innovation()[0]), (n.0, n.1, b.innovation()[0]))
}
pub fn ekf_refuses_non_finite(x: [f64; 2], p: [f64; 3], r: f64) -> bool {
    let k = h_ekf(x, h_s2(p), [[0.0; 2]; 2], [[r]]);
    [f64::NAN, f64::INFINITY, f64::NEG_INFINITY].iter().all(|&m| {
        let (mut a, mut b) = (k, k);
        a.update(&HReading, Vector::new([m])) == Err(EstimationError::NonFinite)
            && b.update_with_residual(&HReading, Vector::new([m])) == Err(EstimationError::NonFinite)
            && h_same(h_ekfs(&a), h_ekfs(&k))
            && h_same(h_ekfs(&b), h_ekfs(&k))
    })
}
struct HBroken;
impl VectorFn<2, 2> for HBroken {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        [x[0], S::from_f64(f64::NAN)]
    }
}
pub fn ekf_broken_model_changes_nothing(x: [f64; 2], p: [f64; 3], q: [f64; 3]) -> bool {
    let k = h_ekf(x, h_s2(p), h_s2(q), [[1.0]]);
    let mut a = k;
    a.predict(&HBroken).is_err() && h_same(h_ekfs(&a), h_ekfs(&k))
}
pub fn ekf_setters(x: [f64; 2], p: [f64; 3], q: [f64; 3], r: f64, z: f64) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let mut a = h_ekf([0.0; 2], h_s2(p), [[0.0; 2]; 2], [[1.0]]);
    a.set_state(Vector::new(x));
    a.set_process_noise(Matrix::new(h_s2(q)));
    a.set_measurement_noise(Matrix::new([[r]]));
    let mut b = h_ekf(x, h_s2(p), h_s2(q), [[r]]);
    a.predict(&HCurved).unwrap();
    b.predict(&HCurved).unwrap();
    assume(a.update(&HReading, Vector::new([z])).is_ok() && b.update(&HReading, Vector::new([z])).is_ok());
    (h_ekfs(&a), h_ekfs(&b))
}

// ---- the unscented filter ----
fn h_ukf<const N: usize, const K: usize>(x: [f64; N], p: M<N, N>, q: M<N, N>, r: M<K, K>) -> UnscentedKalmanFilter<N, K> {
    UnscentedKalmanFilter::new(Vector::new(x), Matrix::new(p), Matrix::new(q), Matrix::new(r))
}
fn h_ukfs<const N: usize, const K: usize>(k: &UnscentedKalmanFilter<N, K>) -> ([f64; N], M<N, N>) {
    (*k.state().as_array(), k.covariance().into_array())
}
/// a straight-line model moves mean and covariance exactly, however the points are spread
pub fn ukf_linear_predict(x: [f64; 2], l: [f64; 3], f: M<2, 2>, q: [f64; 3], a: f64, b: f64, g: f64) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let p = h_cov2(l);
    assume(a * a > 1e-4 && g > -1.0);
    let mut k = h_ukf(x, p, h_s2(q), [[1.0]]).with_scaling(a, b, g).unwrap();
    k.predict(&HLinear(f)).unwrap();
    (h_ukfs(&k), (h_mv(f, x), h_plus(h_mul(h_mul(f, p), h_t(f)), h_s2(q))))
}
pub fn ukf_linear_predict_default(x: [f64; 2], l: [f64; 3], f: M<2, 2>, q: [f64; 3]) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let p = h_cov2(l);
    let mut k = h_ukf(x, p, h_s2(q), [[1.0]]);
    k.predict(&HLinear(f)).unwrap();
    (h_ukfs(&k), (h_mv(f, x), h_plus(h_mul(h_mul(f, p), h_t(f)), h_s2(q))))
}
/// without process noise the update is the linear filter's
pub fn ukf_linear_update(x: [f64; 2], l: [f64; 3], h: [f64; 2], r: f64, z: f64, a: f64, b: f64) -> (([f64; 2], M<2, 2>, f64, f64, f64), ([f64; 2], M<2, 2>, f64, f64, f64)) {
    let p = h_cov2(l);
    assume(a * a > 1e-4 && r > 0.01);
    let mut k = h_ukf(x, p, [[0.0; 2]; 2], [[r]]).with_scaling(a, b, 2.0).unwrap();
    k.predict(&HLinear(h_id::<2>())).unwrap();
    k.update(&HLinear([h]), Vector::new([z])).unwrap();
    let mut c = h_kf(x, p, h_id(), [h], [[0.0; 2]; 2], [[r]]);
    c.update(Vector::new([z])).unwrap();
    let (m, n) = (h_ukfs(&k), h_kfs(&c));
    (
        (m.0, m.1, k.innovation()[0], k.innovation_covariance()[(0, 0)], k.normalized_innovation_squared().unwrap()),
        (n.0, n.1, c.innovation()[0], c.innovation_covariance()[(0, 0)], c.normalized_innovation_squared().unwrap()),
    )
}
pub fn ukf_linear_update_two(x: [f64; 2], l: [f64; 3], h: M<2, 2>, r: [f64; 2], z: [f64; 2]) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let p = h_cov2(l);
    assume(r[0] > 0.01 && r[1] > 0.01);
    let mut k = h_ukf(x, p, [[0.0; 2]; 2], h_diag(r));
    k.predict(&HLinear(h_id::<2>())).unwrap();
    k.update(&HLinear(h), Vector::new(z)).unwrap();
    let mut c = h_kf(x, p, h_id(), h, [[0.0; 2]; 2], h_diag(r));
    c.update(Vector::new(z)).unwrap();
    (h_ukfs(&k), h_kfs(&c))
}
struct HSquare;
impl VectorFn<1, 1> for HSquare {
    fn eval<S: Numeric>(&self, x: &[S; 1]) -> [S; 1] {
        [x[0] * x[0]]
    }
}
/// the mean of a parabola is shifted by the variance, and beta = 2, alpha^2 (1 + kappa) = 3 gives a Gaussian's spread
pub fn ukf_parabola(x: f64, p: f64, q: f64) -> ([f64; 2], [f64; 2]) {
    assume(p > 0.01);
    let mut k = h_ukf([x], [[p]], [[q]], [[1.0]]).with_scaling(1.0, 0.0, 2.0).unwrap();
    k.predict(&HSquare).unwrap();
    ([k.state()[0], k.covariance()[(0, 0)]], [x * x + p, 4.0 * x * x * p + 2.0 * p * p + q])
}
pub fn ukf_parabola_scaled(x: f64, p: f64, q: f64, a: f64, b: f64, g: f64) -> ([f64; 2], [f64; 2]) {
    assume(p > 0.01 && a * a > 1e-4 && g > -0.5);
    let mut k = h_ukf([x], [[p]], [[q]], [[1.0]]).with_scaling(a, b, g).unwrap();
    k.predict(&HSquare).unwrap();
    let s = a * a * (1.0 + g);
    // deviations of the outer points from the centre are 2 x sqrt(s p) and s p; the centre is p below the mean
    let w = (s - 1.0) / s + 1.0 - a * a + b;
    ([k.state()[0], k.covariance()[(0, 0)]], [x * x + p, 4.0 * x * x * p + (s - 1.0) * (s - 1.0) * p * p / s + w * p * p + q])
}
pub fn ukf_regularization(x: f64, p: f64, e: f64) -> (f64, f64) {
    assume(p > 0.01 && e > 0.0);
    let mut k = h_ukf([x], [[p]], [[0.0]], [[1.0]]).with_scaling(1.0, 2.0, 1.0).unwrap().with_regularization(e).unwrap();
    k.predict(&HLinear([[1.0]])).unwrap();
    (k.covariance()[(0, 0)], p + e / 2.0)
}
pub fn ukf_update_with_residual(x: f64, p: f64, r: f64, z: f64) -> ([f64; 3], [f64; 3]) {
    assume(p > 0.01 && r > 0.01);
    let mut a = h_ukf([x], [[p]], [[0.0]], [[r]]).with_scaling(1.0, 0.0, 2.0).unwrap();
    a.predict(&HLinear([[1.0]])).unwrap();
    let mut b = a;
    a.update(&HSquare, Vector::new([z])).unwrap();
    b.update_with_residual(&HSquare, Vector::new([z - x * x - p])).unwrap();
    ([a.state()[0], a.covariance()[(0, 0)], a.innovation()[0]], [b.state()[0], b.covariance()[(0, 0)], b.innovation()[0]])
}
/// the gain of a curved reading: cross-covariance 2 x p over 4 x^2 p + 2 p^2 + r
pub fn ukf_curved_update(x: f64, p: f64, r: f64, z: f64) -> ([f64; 2], [f64; 2]) {
    assume(p > 0.01 && r > 0.01);
    let mut a = h_ukf([x], [[p]], [[0.0]], [[r]]).with_scaling(1.0, 0.0, 2.0).unwrap();
    a.predict(&HLinear([[1.0]])).unwrap();
    a.update(&HSquare, Vector::new([z])).unwrap();
    let s = 4.0 * x * x * p + 2.0 * p * p + r;
    let g = 2.0 * x * p / s;
    ([a.state()[0], a.covariance()[(0, 0)]], [x + g * (z - x * x - p), p - g * g * s])
}
pub fn ukf_tuning_refused(a: f64, b: f64, e: f64) -> bool {
    let k = h_ukf([0.0, 0.0], h_id(), h_id(), [[1.0]]);
    assume(a > 0.01 && e < -0.01);
    k.with_scaling(f64::NAN, b, 0.0).is_err()
        && k.with_scaling(a, f64::INFINITY, 0.0).is_err()
        && k.with_scaling(a, b, f64::NAN).is_err()
        && k.with_scaling(0.0, b, 0.0).is_err()
        && k.with_scaling(a, b, -2.0).is_err()
        && k.with_scaling(a, b, -3.0).is_err()
        && k.with_scaling(a, b, -1.0).is_ok()
        && k.with_scaling(-a, b, 0.0).is_ok()
        && k.with_regularization(e).is_err()
        && k.with_regularization(f64::NAN).is_err()
        && k.with_regularization(f64::INFINITY).is_err()
        && k.with_regularization(0.0).is_ok()
        && k.with_regularization(-e).is_ok()
}
pub fn ukf_refuses_non_finite(x: [f64; 2], l: [f64; 3], r: f64) -> bool {
    let mut k = h_ukf(x, h_cov2(l), [[0.0; 2]; 2], [[r]]);
    k.predict(&HLinear(h_id::<2>())).unwrap();
    [f64::NAN, f64::INFINITY, f64::NEG_INFINITY].iter().all(|&m| {
        let (mut a, mut b) = (k, k);
        a.update(&HLinear([[1.0, 0.0]]), Vector::new([m])) == Err(EstimationError::NonFinite)
            && b.update_with_residual(&HLinear([[1.0, 0.0]]), Vector::new([m])) == Err(EstimationError::NonFinite)
            && h_same(h_ukfs(&a), h_ukfs(&k))
            && h_same(h_ukfs(&b), h_ukfs(&k))
    })
}
pub fn ukf_broken_model_keeps_belief(x: [f64; 2], l: [f64; 2]) -> bool {
    assume(l[0] > 0.01 && l[1] > 0.01);
    let k = h_ukf(x, h_diag(l), [[0.0; 2]; 2], [[1.0]]);
    let mut a = k;
    a.predict(&HBroken) == Err(EstimationError::NonFinite) && h_same(h_ukfs(&a), h_ukfs(&k))
}
pub fn ukf_not_positive_keeps_belief(x: [f64; 2], p: [f64; 2]) -> bool {
    assume(p[0] < -0.01);
    let k = h_ukf(x, h_diag(p), [[0.0; 2]; 2], [[1.0]]);
    let mut a = k;
    a.predict(&HLinear(h_id::<2>())) == Err(EstimationError::NotPositiveDefinite) && h_same(h_ukfs(&a), h_ukfs(&k))
}
/// before any prediction a reading teaches nothing
pub fn ukf_update_before_predict(x: [f64; 2], p: [f64; 3], r: f64, z: f64) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    assume(r > 0.01);
    let mut k = h_ukf(x, h_s2(p), [[0.0; 2]; 2], [[r]]).with_scaling(1.0, 0.0, 1.0).unwrap();
    k.update(&HLinear([[1.0, 1.0]]), Vector::new([z])).unwrap();
    (h_ukfs(&k), (x, h_s2(p)))
}

// ---- the error-state filter ----
fn v3<T: Numeric>(a: [T; 3]) -> Vector<3, T> {
    Vector::new(a)
}
fn h_n2(a: [f64; 4]) -> f64 {
    a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
}
fn h_qmul(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn h_unit(a: [f64; 4]) -> [f64; 4] {
    let n = h_n2(a);
    let s = h_qmul(a, a);
    [s[0] / n, s[1] / n, s[2] / n, s[3] / n]
}
fn h_rot(u: [f64; 4]) -> M<3, 3> {
    let [w, x, y, z] = u;
    [
        [w * w + x * x - y * y - z * z, 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]
}
fn h_cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn h_so3(u: [f64; 4]) -> SO3 {
    SO3::from_quaternion(Quaternion::new(u[0], u[1], u[2], u[3]))
}
fn h_q(r: SO3) -> [f64; 4] {
    r.quaternion().as_array()
}
fn h_nominal(p: [f64; 3], v: [f64; 3], a: [f64; 4], b: [f64; 3], c: [f64; 3]) -> NominalState {
    NominalState::new(v3(p), v3(v), h_so3(h_unit(a)), v3(b), v3(c))
}
type N5 = ([f64; 3], [f64; 3], [f64; 4], [f64; 3], [f64; 3]);
fn h_parts(s: NominalState) -> N5 {
    (*s.position().as_array(), *s.velocity().as_array(), h_q(s.orientation()), *s.gyroscope_bias().as_array(), *s.accelerometer_bias().as_array())
}
pub fn nominal_at_rest(a: [f64; 4]) -> (N5, N5) {
    let u = h_unit(a);
    (h_parts(NominalState::at_rest(h_so3(u))), ([0.0; 3], [0.0; 3], u, [0.0; 3], [0.0; 3]))
}
pub fn nominal_plus_error(p: [f64; 3], v: [f64; 3], a: [f64; 4], b: [f64; 3], c: [f64; 3], e: [[f64; 3]; 5]) -> (N5, N5) {
    let s = h_nominal(p, v, a, b, c);
    let mut x = [0.0; 15];
    for i in 0..15 {
        x[i] = e[i / 3][i % 3];
    }
    let turn = SO3::exp(v3(e[2]));
    (h_parts(s.plus_error(Vector::new(x))), (h_add(p, e[0]), h_add(v, e[1]), h_q(s.orientation() * turn), h_add(b, e[3]), h_add(c, e[4])))
}
pub fn nominal_error_from_itself(p: [f64; 3], v: [f64; 3], a: [f64; 4], b: [f64; 3], c: [f64; 3]) -> ([f64; 15], [f64; 15]) {
    let s = h_nominal(p, v, a, b, c);
    (*s.error_from(s).as_array(), [0.0; 15])
}
/// the error read back from a moved state, added again, moves there
pub fn nominal_error_round(p: [[f64; 3]; 2], v: [[f64; 3]; 2], a: [[f64; 4]; 2], b: [[f64; 3]; 2], c: [[f64; 3]; 2]) -> (([f64; 12], M<3, 3>), ([f64; 12], M<3, 3>)) {
    let (s, t) = (h_nominal(p[0], v[0], a[0], b[0], c[0]), h_nominal(p[1], v[1], a[1], b[1], c[1]));
    let r = h_q(s.orientation().inverse() * t.orientation());
    assume(r[1] * r[1] + r[2] * r[2] + r[3] * r[3] > 1e-3);
    let e = t.error_from(s);
    assume(e[6] * e[6] + e[7] * e[7] + e[8] * e[8] > 1e-3);
    let o = s.plus_error(e);
    let m = h_parts(o);
    ((h_cat(m.0, m.1, m.3, m.4), o.orientation().to_matrix().into_array()), (h_cat(p[1], v[1], b[1], c[1]), t.orientation().to_matrix().into_array()))
}
pub fn nominal_error_parts(p: [[f64; 3]; 2], v: [[f64; 3]; 2], a: [[f64; 4]; 2], b: [[f64; 3]; 2], c: [[f64; 3]; 2]) -> ([f64; 15], [f64; 15]) {
    let (s, t) = (h_nominal(p[0], v[0], a[0], b[0], c[0]), h_nominal(p[1], v[1], a[1], b[1], c[1]));
    let w = (t.orientation().inverse() * s.orientation()).log();
    let d = [h_sub(p[0], p[1]), h_sub(v[0], v[1]), *w.as_array(), h_sub(b[0], b[1]), h_sub(c[0], c[1])];
    let mut x = [0.0; 15];
    for i in 0..15 {
        x[i] = d[i / 3][i % 3];
    }
    (*s.error_from(t).as_array(), x)
}
/// a step of dead reckoning: the push is turned into the world and gravity added
pub fn nominal_propagated(p: [f64; 3], v: [f64; 3], a: [f64; 4], b: [f64; 3], c: [f64; 3], w: [f64; 3], f: [f64; 3], t: f64, g: [f64; 3]) -> (N5, N5) {
    let s = h_nominal(p, v, a, b, c);
    let push = h_add(h_mv(h_rot(h_unit(a)), h_sub(f, c)), g);
    let turn = SO3::exp(v3(h_sc(t, h_sub(w, b))));
    (
        h_parts(s.propagated(v3(w), v3(f), t, v3(g))),
        (h_add(h_add(p, h_sc(t, v)), h_sc(0.5 * t * t, push)), h_add(v, h_sc(t, push)), h_q(s.orientation() * turn), b, c),
    )
}
fn h_imu(n: [f64; 4]) -> ImuNoise {
    ImuNoise { gyroscope_noise_density: n[0], accelerometer_noise_density: n[1], gyroscope_bias_random_walk: n[2], accelerometer_bias_random_walk: n[3] }
}
fn h_eskf<const K: usize>(s: NominalState, p: M<15, 15>, n: [f64; 4], r: M<K, K>) -> ErrorStateKalmanFilter<K> {
    ErrorStateKalmanFilter::new(s, Matrix::new(p), h_imu(n), Matrix::new(r))
}
fn h_blocks(t: f64, r: M<3, 3>, f: [f64; 3], e: M<3, 3>) -> M<15, 15> {
    let mut o = h_id::<15>();
    for i in 0..3 {
        o[i][3 + i] = t;
        o[6 + i][9 + i] = -t;
        for j in 0..3 {
            let mut u = [0.0; 3];
            u[j] = 1.0;
            let c = h_mv(r, h_cross(f, u));
            o[3 + i][6 + j] = -t * c[i];
            o[3 + i][12 + j] = -t * r[i][j];
            o[6 + i][6 + j] = e[i][j];
        }
    }
    o
}
pub fn eskf_transition(a: [f64; 4], b: [f64; 3], c: [f64; 3], w: [f64; 3], f: [f64; 3], t: f64) -> (M<15, 15>, M<15, 15>) {
    let k = h_eskf::<1>(h_nominal([0.0; 3], [0.0; 3], a, b, c), h_id(), [0.0; 4], [[1.0]]);
    let e = SO3::exp(v3(h_sc(-t, h_sub(w, b)))).to_matrix().into_array();
    (k.error_state_transition(v3(w), v3(f), t).into_array(), h_blocks(t, h_rot(h_unit(a)), h_sub(f, c), e))
}
/// the noise of a step: white rates squared times the step squared, bias walks squared times the step
pub fn eskf_predict_noise(a: [f64; 4], b: [f64; 3], c: [f64; 3], w: [f64; 3], f: [f64; 3], t: f64, n: [f64; 4]) -> (M<15, 15>, M<15, 15>) {
    let mut k = h_eskf::<1>(h_nominal([0.0; 3], [0.0; 3], a, b, c), [[0.0; 15]; 15], n, [[1.0]]);
    k.predict(v3(w), v3(f), t).unwrap();
    let mut o = [[0.0; 15]; 15];
    for i in 0..3 {
        o[3 + i][3 + i] = n[1] * n[1] * t * t;
        o[6 + i][6 + i] = n[0] * n[0] * t * t;
        o[9 + i][9 + i] = n[2] * n[2] * t;
        o[12 + i][12 + i] = n[3] * n[3] * t;
    }
    (k.covariance().into_array(), o)
}
/// the covariance moves with the transition: F P F' for a P touching every block
pub fn eskf_predict_covariance(a: [f64; 4], f: [f64; 3], t: f64, d: [f64; 15]) -> (M<15, 15>, M<15, 15>) {
    let mut k = h_eskf::<1>(h_nominal([0.0; 3], [0.0; 3], a, [0.0; 3], [0.0; 3]), h_outer(d), [0.0; 4], [[1.0]]);
    k.predict(v3([0.0; 3]), v3(f), t).unwrap();
    (k.covariance().into_array(), h_outer(h_mv(h_blocks(t, h_rot(h_unit(a)), f, h_id()), d)))
}
fn h_outer(d: [f64; 15]) -> M<15, 15> {
    let mut o = [[0.0; 15]; 15];
    for i in 0..15 {
        for j in 0..15 {
            o[i][j] = d[i] * d[j];
        }
    }
    o
}
pub fn eskf_predict_state(p: [f64; 3], v: [f64; 3], a: [f64; 4], b: [f64; 3], c: [f64; 3], w: [f64; 3], f: [f64; 3], t: f64, g: [f64; 3]) -> (N5, N5) {
    let s = h_nominal(p, v, a, b, c);
    let mut k = h_eskf::<1>(s, [[0.0; 15]; 15], [0.0; 4], [[1.0]]).with_gravity(v3(g));
    k.predict(v3(w), v3(f), t).unwrap();
    (h_parts(k.nominal_state()), h_parts(s.propagated(v3(w), v3(f), t, v3(g))))
}
pub fn eskf_default_gravity(f: [f64; 3], t: f64) -> ([f64; 3], [f64; 3]) {
    let s = NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0]));
    let mut k = h_eskf::<1>(s, [[0.0; 15]; 15], [0.0; 4], [[1.0]]);
    k.predict(v3([0.0; 3]), v3(f), t).unwrap();
    (*k.nominal_state().velocity().as_array(), [f[0] * t, f[1] * t, (f[2] - 9.81) * t])
}
pub fn eskf_refuses_non_finite(a: [f64; 4], w: [f64; 3]) -> bool {
    let s = h_nominal([0.0; 3], [0.0; 3], a, [0.0; 3], [0.0; 3]);
    let k = h_eskf::<1>(s, h_id(), [1.0; 4], [[1.0]]);
    let n = f64::NAN;
    let bad = [([n, 0.0, 0.0], w, 1.0), (w, [0.0, f64::INFINITY, 0.0], 1.0), (w, w, n)];
    bad.iter().all(|&(g, f, t)| {
        let mut a = k;
        a.predict(v3(g), v3(f), t) == Err(EstimationError::NonFinite) && a.nominal_state() == s && a.covariance().into_array() == h_id()
    })
}
/// which reading: position, velocity, a direction seen from the body, or a bias
struct HSeen(usize);
impl NominalStateFn<1> for HSeen {
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; 1] {
        match self.0 {
            0 => [s.position()[0] * s.position()[1]],
            1 => [s.velocity()[2]],
            2 => [s.orientation().inverse().act(Vector::new([S::ONE, S::ZERO, S::ZERO]))[1]],
            3 => [s.gyroscope_bias()[0]],
            _ => [s.accelerometer_bias()[2] * s.velocity()[0]],
        }
    }
}
/// the derivative of a reading with respect to the fifteen errors
fn h_slope(which: usize, p: [f64; 3], v: [f64; 3], a: [f64; 4], c: [f64; 3]) -> [f64; 15] {
    let mut o = [0.0; 15];
    match which {
        0 => {
            o[0] = p[1];
            o[1] = p[0];
        }
        1 => o[5] = 1.0,
        2 => {
            // R' e turned by a small body rotation d: R'e x d
            let r = h_rot(h_unit(a));
            let b = r[0];
            o[6] = b[2];
            o[8] = -b[0];
        }
        3 => o[9] = 1.0,
        _ => {
            o[3] = c[2];
            o[14] = v[0];
        }
    }
    o
}
fn h_eskf_update(which: usize, p: [f64; 3], v: [f64; 3], a: [f64; 4], b: [f64; 3], c: [f64; 3], d: [f64; 15], r: f64, y: f64) -> (([f64; 12], f64), ([f64; 12], f64)) {
    assume(r > 0.01);
    let s = h_nominal(p, v, a, b, c);
    let mut k = h_eskf(s, h_diag(d), [0.0; 4], [[r]]);
    let h = h_slope(which, p, v, a, c);
    let mut cov = r;
    let mut e = [0.0; 15];
    for i in 0..15 {
        assume(d[i] > 0.01);
        e[i] = d[i] * h[i];
        cov += e[i] * h[i];
    }
    k.update_with_residual(&HSeen(which), Vector::new([y])).unwrap();
    let m = h_parts(k.nominal_state());
    let e = h_sc(y / cov, e);
    let n = h_parts(s.plus_error(Vector::new(e)));
    (
        (h_cat(m.0, m.1, m.3, m.4), k.innovation_covariance()[(0, 0)]),
        (h_cat(n.0, n.1, n.3, n.4), cov),
    )
}
fn h_cat(a: [f64; 3], b: [f64; 3], c: [f64; 3], d: [f64; 3]) -> [f64; 12] {
    [a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2], d[0], d[1], d[2]]
}
pub fn eskf_update_position(p: [f64; 3], v: [f64; 3], d: [f64; 15], r: f64, y: f64) -> (([f64; 12], f64), ([f64; 12], f64)) {
    h_eskf_update(0, p, v, [1.0, 0.0, 0.0, 0.0], [0.0; 3], [0.0; 3], d, r, y)
}
pub fn eskf_update_velocity(p: [f64; 3], v: [f64; 3], d: [f64; 15], r: f64, y: f64) -> (([f64; 12], f64), ([f64; 12], f64)) {
    h_eskf_update(1, p, v, [1.0, 0.0, 0.0, 0.0], [0.0; 3], [0.0; 3], d, r, y)
}
pub fn eskf_update_direction(a: [f64; 4], d: [f64; 15], r: f64, y: f64) -> (([f64; 12], f64), ([f64; 12], f64)) {
    h_eskf_update(2, [0.0; 3], [0.0; 3], a, [0.0; 3], [0.0; 3], d, r, y)
}
pub fn eskf_update_bias(b: [f64; 3], c: [f64; 3], d: [f64; 15], r: f64, y: f64) -> (([f64; 12], f64), ([f64; 12], f64)) {
    h_eskf_update(3, [0.0; 3], [0.0; 3], [1.0, 0.0, 0.0, 0.0], b, c, d, r, y)
}
pub fn eskf_update_mixed(v: [f64; 3], c: [f64; 3], d: [f64; 15], r: f64, y: f64) -> (([f64; 12], f64), ([f64; 12], f64)) {
    h_eskf_update(4, [0.0; 3], v, [1.0, 0.0, 0.0, 0.0], [0.0; 3], c, d, r, y)
}
/// a direct reading of one error with a diagonal belief shrinks that variance alone
pub fn eskf_update_covariance(d: [f64; 15], r: f64, y: f64) -> (M<15, 15>, M<15, 15>) {
    assume(r > 0.01 && d[5] > 0.01);
    let s = NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0]));
    let mut k = h_eskf(s, h_diag(d), [0.0; 4], [[r]]);
    k.update_with_residual(&HSeen(1), Vector::new([y])).unwrap();
    let mut e = d;
    e[5] = d[5] * r / (d[5] + r);
    (k.covariance().into_array(), h_diag(e))
}
pub fn eskf_update_naive(d: [f64; 15], r: f64, y: f64) -> (M<15, 15>, M<15, 15>) {
    assume(r > 0.01 && d[5] > 0.01);
    let s = NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0]));
    let mut a = h_eskf(s, h_diag(d), [0.0; 4], [[r]]);
    let mut b = a.with_covariance_update(CovarianceUpdate::Naive);
    a.update_with_residual(&HSeen(1), Vector::new([y])).unwrap();
    b.update_with_residual(&HSeen(1), Vector::new([y])).unwrap();
    (a.covariance().into_array(), b.covariance().into_array())
}
pub fn eskf_update_other(d: [f64; 15], r: f64, y: f64) -> ((N5, M<15, 15>, f64), (N5, M<15, 15>, f64)) {
    assume(r > 0.01 && d[5] > 0.01);
    let s = NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0]));
    let mut a = h_eskf(s, h_diag(d), [0.0; 4], [[r]]);
    let mut b = h_eskf::<2>(s, h_diag(d), [0.0; 4], h_id());
    a.update_with_residual(&HSeen(1), Vector::new([y])).unwrap();
    b.update_other(&HSeen(1), Vector::new([y]), Matrix::new([[r]])).unwrap();
    ((h_parts(a.nominal_state()), a.covariance().into_array(), b.innovation()[0]), (h_parts(b.nominal_state()), b.covariance().into_array(), 0.0))
}
pub fn eskf_update_forms_residual(p: [f64; 3], v: [f64; 3], d: [f64; 15], r: f64, z: f64) -> ((N5, f64), (N5, f64)) {
    assume(r > 0.01 && d[5] > 0.01);
    let s = h_nominal(p, v, [1.0, 0.0, 0.0, 0.0], [0.0; 3], [0.0; 3]);
    let mut a = h_eskf(s, h_diag(d), [0.0; 4], [[r]]);
    let mut b = a;
    a.update(&HSeen(1), Vector::new([z])).unwrap();
    b.update_with_residual(&HSeen(1), Vector::new([z - v[2]])).unwrap();
    ((h_parts(a.nominal_state()), a.innovation()[0]), (h_parts(b.nominal_state()), z - v[2]))
}
/// after a rotation e is folded in, the belief turns by 1 - hat(e)/2
pub fn eskf_reset(d: [f64; 15], e: [f64; 3]) -> (M<15, 15>, M<15, 15>) {
    let s = NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0]));
    let mut k = h_eskf(s, h_outer(d), [0.0; 4], [[1.0]]);
    let mut x = [0.0; 15];
    for i in 0..3 {
        x[6 + i] = e[i];
    }
    k.inject_error_and_reset(Vector::new(x));
    let mut n = d;
    let c = h_cross(e, [d[6], d[7], d[8]]);
    for i in 0..3 {
        n[6 + i] -= 0.5 * c[i];
    }
    (k.covariance().into_array(), h_outer(n))
}
pub fn eskf_estimation_error(d: [f64; 15], x: [f64; 12]) -> (f64, f64) {
    let s = NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0]));
    let mut l = d;
    for i in 0..15 {
        assume(d[i] * d[i] > 0.01);
        l[i] = d[i] * d[i];
    }
    let k = h_eskf(s, h_diag(l), [0.0; 4], [[1.0]]);
    let p = |i: usize| [x[i], x[i + 1], x[i + 2]];
    let t = h_nominal(p(0), p(3), [1.0, 0.0, 0.0, 0.0], p(6), p(9));
    let mut o = 0.0;
    for i in 0..12 {
        o += x[i] * x[i] / l[if i < 6 { i } else { i + 3 }];
    }
    (k.normalized_estimation_error_squared(t).unwrap(), o)
}
pub fn eskf_update_refuses_non_finite(d: [f64; 15], r: f64) -> bool {
    let s = NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0]));
    let k = h_eskf(s, h_diag(d), [0.0; 4], [[r]]);
    [f64::NAN, f64::INFINITY, f64::NEG_INFINITY].iter().all(|&m| {
        let (mut a, mut b) = (k, k);
        a.update(&HSeen(1), Vector::new([m])) == Err(EstimationError::NonFinite)
            && b.update_with_residual(&HSeen(1), Vector::new([m])) == Err(EstimationError::NonFinite)
            && a.nominal_state() == s
            && b.nominal_state() == s
            && a.covariance().into_array() == h_diag(d)
            && b.covariance().into_array() == h_diag(d)
    })
}

// ---- attitude filters ----
fn h_norm3(a: [f64; 3]) -> f64 {
    h_dot(a, a).sqrt()
}
/// Mahony: the error between measured and expected directions, proportional on the rate and integral on the bias
fn h_error(u: [f64; 4], acc: [f64; 3], mag: Option<[f64; 3]>) -> [f64; 3] {
    let r = h_rot(u);
    let a = h_sc(1.0 / h_norm3(acc), acc);
    let mut e = h_cross(a, r[2]);
    if let Some(m) = mag {
        let m = h_sc(1.0 / h_norm3(m), m);
        let w = h_mv(r, m);
        let across = (1.0 - w[2] * w[2]).sqrt();
        e = h_add(e, h_cross(m, h_mv(h_t(r), [across, 0.0, w[2]])));
    }
    e
}
pub fn mahony_step(u: [f64; 4], g: [f64; 3], a: [f64; 3], b: [f64; 3], k: [f64; 2], t: f64) -> (([f64; 4], [f64; 3]), ([f64; 4], [f64; 3])) {
    let q = h_unit(u);
    assume(h_dot(a, a) > 0.01);
    let mut f = MahonyFilter::new(h_so3(q)).with_proportional_gain(k[0]).with_integral_gain(k[1]);
    f.set_gyroscope_bias(v3(b));
    f.step_without_magnetometer(v3(g), v3(a), t).unwrap();
    let e = h_error(q, a, None);
    let bias = h_sub(b, h_sc(k[1] * t, e));
    let rate = h_add(h_sub(g, bias), h_sc(k[0], e));
    let o = ExponentialMap::attitude_step(h_so3(q), v3(rate), t).normalized();
    ((h_q(f.orientation()), *f.gyroscope_bias().as_array()), (h_q(o), bias))
}
pub fn mahony_compass_bias(u: [f64; 4], a: [f64; 3], m: [f64; 3], b: [f64; 3], k: f64, t: f64) -> ([f64; 3], [f64; 3]) {
    let q = h_unit(u);
    assume(h_dot(a, a) > 0.01 && h_dot(m, m) > 0.01);
    let mut f = MahonyFilter::new(h_so3(q)).with_integral_gain(k);
    f.set_gyroscope_bias(v3(b));
    f.step(v3([0.0; 3]), v3(a), Some(v3(m)), t).unwrap();
    let r = h_rot(q);
    let n = h_norm3(m);
    let w = h_mv(r, h_sc(1.0 / n, m));
    assume(1.0 - w[2] * w[2] > 1e-6);
    let e = h_error(q, a, Some(m));
    (*f.gyroscope_bias().as_array(), h_sub(b, h_sc(k * t, e)))
}
/// readings that agree with the attitude leave only the gyroscope
pub fn mahony_agreement(u: [f64; 4], g: [f64; 3], s: f64, t: f64) -> (([f64; 4], [f64; 3]), ([f64; 4], [f64; 3])) {
    let q = h_unit(u);
    assume(s > 0.1);
    let mut f = MahonyFilter::new(h_so3(q));
    f.step_without_magnetometer(v3(g), v3(h_sc(s, h_rot(q)[2])), t).unwrap();
    let o = ExponentialMap::attitude_step(h_so3(q), v3(g), t).normalized();
    ((h_q(f.orientation()), *f.gyroscope_bias().as_array()), (h_q(o), [0.0; 3]))
}
/// no acceleration, no correction
pub fn mahony_free_fall(u: [f64; 4], g: [f64; 3], b: [f64; 3], t: f64) -> (([f64; 4], [f64; 3]), ([f64; 4], [f64; 3])) {
    let q = h_unit(u);
    let mut f = MahonyFilter::new(h_so3(q));
    f.set_gyroscope_bias(v3(b));
    f.step_without_magnetometer(v3(g), v3([0.0; 3]), t).unwrap();
    let o = ExponentialMap::attitude_step(h_so3(q), v3(h_sub(g, b)), t).normalized();
    ((h_q(f.orientation()), *f.gyroscope_bias().as_array()), (h_q(o), b))
}
/// Madgwick: the same error, but only its direction
pub fn madgwick_step(u: [f64; 4], g: [f64; 3], a: [f64; 3], b: [f64; 3], k: [f64; 2], t: f64) -> ([f64; 3], [f64; 3]) {
    let q = h_unit(u);
    let e = h_error(q, a, None);
    assume(h_dot(a, a) > 0.01 && h_dot(e, e) > 0.001);
    let mut f = MadgwickFilter::new(h_so3(q)).with_correction_gain(k[0]).with_bias_gain(k[1]);
    f.set_gyroscope_bias(v3(b));
    f.step_without_magnetometer(v3(g), v3(a), t).unwrap();
    (*f.gyroscope_bias().as_array(), h_sub(b, h_sc(k[1] * t / h_norm3(e), e)))
}
pub fn madgwick_attitude(u: [f64; 4], g: [f64; 3], a: [f64; 3], k: f64, t: f64) -> ([f64; 4], [f64; 4]) {
    let q = h_unit(u);
    let e = h_error(q, a, None);
    assume(h_dot(a, a) > 0.01 && h_dot(e, e) > 0.001);
    let mut f = MadgwickFilter::new(h_so3(q)).with_correction_gain(k).with_bias_gain(0.0);
    f.step_without_magnetometer(v3(g), v3(a), t).unwrap();
    let rate = h_add(g, h_sc(k / h_norm3(e), e));
    (h_q(f.orientation()), h_q(ExponentialMap::attitude_step(h_so3(q), v3(rate), t).normalized()))
}
pub fn madgwick_agreement(u: [f64; 4], g: [f64; 3], s: f64, t: f64) -> (([f64; 4], [f64; 3]), ([f64; 4], [f64; 3])) {
    let q = h_unit(u);
    assume(s > 0.1);
    let mut f = MadgwickFilter::new(h_so3(q));
    f.step_without_magnetometer(v3(g), v3(h_sc(s, h_rot(q)[2])), t).unwrap();
    let o = ExponentialMap::attitude_step(h_so3(q), v3(g), t).normalized();
    ((h_q(f.orientation()), *f.gyroscope_bias().as_array()), (h_q(o), [0.0; 3]))
}
/// any pair of references is levelled and normalised: only their plane and the upward line count
pub fn references_levelled(u: [f64; 4], a: [f64; 3], m: [f64; 3], s: [f64; 3], t: f64) -> (([f64; 3], [f64; 3]), ([f64; 3], [f64; 3])) {
    let q = h_unit(u);
    assume(s[0] > 0.1 && s[1] > 0.1 && h_dot(a, a) > 0.01 && h_dot(m, m) > 0.01);
    let (up, north) = (v3([0.0, 0.0, s[0]]), v3([s[1], 0.0, s[2]]));
    let run = |mut f: MahonyFilter| {
        f.step(v3([0.0; 3]), v3(a), Some(v3(m)), t).unwrap();
        *f.gyroscope_bias().as_array()
    };
    let f = MahonyFilter::new(h_so3(q));
    let mut x = MadgwickFilter::new(h_so3(q));
    let mut y = MadgwickFilter::new(h_so3(q)).with_reference_directions(up, north);
    x.step(v3([0.0; 3]), v3(a), Some(v3(m)), t).unwrap();
    y.step(v3([0.0; 3]), v3(a), Some(v3(m)), t).unwrap();
    ((run(f.with_reference_directions(up, north)), *y.gyroscope_bias().as_array()), (run(f), *x.gyroscope_bias().as_array()))
}
pub fn references_degenerate_ignored(s: f64, up: [f64; 3]) -> bool {
    let f = MahonyFilter::new(h_so3([1.0, 0.0, 0.0, 0.0]));
    let g = MadgwickFilter::new(h_so3([1.0, 0.0, 0.0, 0.0]));
    let (o, z) = (v3([0.0; 3]), v3([0.0, 0.0, s]));
    assume(s > 0.1);
    f.with_reference_directions(o, v3(up)) == f
        && f.with_reference_directions(z, o) == f
        && g.with_reference_directions(o, v3(up)) == g
        && g.with_reference_directions(z, o) == g
}
pub fn attitude_refuses_non_finite(u: [f64; 4], w: [f64; 3], t: f64) -> bool {
    let q = h_unit(u);
    let (f, h) = (MahonyFilter::new(h_so3(q)), MadgwickFilter::new(h_so3(q)));
    let n = f64::NAN;
    let bad = [(v3([n, 0.0, 0.0]), v3(w), None, t), (v3(w), v3([0.0, f64::INFINITY, 0.0]), None, t), (v3(w), v3(w), Some(v3([0.0, 0.0, n])), t), (v3(w), v3(w), None, n)];
    bad.iter().all(|&(g, a, m, t)| {
        let (mut x, mut y) = (f, h);
        x.step(g, a, m, t) == Err(EstimationError::NonFinite) && x == f && y.step(g, a, m, t) == Err(EstimationError::NonFinite) && y == h
    })
}

// ---- ready-made models ----
pub fn turn_model_straight(x: [f64; 4], t: f64) -> ([f64; 2], [f64; 2]) {
    let o = ConstantTurnAndSpeed { timestep: t }.eval(&[x[0], x[1], x[2], x[3], 0.0]);
    ([o[0], o[1]], [x[0] + x[3] * t * x[2].cos(), x[1] + x[3] * t * x[2].sin()])
}
/// on an arc the chord runs at half the turn beyond the heading and is 2 r sin(half turn) long
pub fn turn_model_arc(x: [f64; 5], t: f64) -> ([f64; 4], [f64; 4]) {
    assume(x[4] > 1e-3);
    let o = ConstantTurnAndSpeed { timestep: t }.eval(&x);
    let half = x[4] * t / 2.0;
    let chord = 2.0 * x[3] / x[4] * half.sin();
    ([o[0], o[1], o[3], o[4]], [x[0] + chord * (x[2] + half).cos(), x[1] + chord * (x[2] + half).sin(), x[3], x[4]])
}
pub fn turn_model_arc_right(x: [f64; 5], t: f64) -> ([f64; 4], [f64; 4]) {
    assume(x[4] < -1e-3);
    let o = ConstantTurnAndSpeed { timestep: t }.eval(&x);
    let half = x[4] * t / 2.0;
    let chord = 2.0 * x[3] / x[4] * half.sin();
    ([o[0], o[1], o[3], o[4]], [x[0] + chord * (x[2] + half).cos(), x[1] + chord * (x[2] + half).sin(), x[3], x[4]])
}
pub fn turn_model_heading(x: [f64; 5], t: f64) -> ([f64; 2], [f64; 2]) {
    let o = ConstantTurnAndSpeed { timestep: t }.eval(&x);
    let n = x[2] + x[4] * t;
    ([o[2].cos(), o[2].sin()], [n.cos(), n.sin()])
}
pub fn direct_measurement(x: [f64; 5]) -> ([f64; 5], [f64; 5]) {
    let (a, b) = (DirectMeasurement::<5, 3>::try_new([4, 0, 2]).unwrap(), DirectMeasurement::<5, 2>::try_new([1, 1]).unwrap());
    let (p, q) = (a.eval(&x), b.eval(&x));
    ([p[0], p[1], p[2], q[0], q[1]], [x[4], x[0], x[2], x[1], x[1]])
}
pub fn direct_measurement_refused() -> bool {
    DirectMeasurement::<3, 2>::try_new([0, 3]) == Err(EstimationError::StateIndexOutOfRange)
        && DirectMeasurement::<3, 2>::try_new([7, 0]) == Err(EstimationError::StateIndexOutOfRange)
        && DirectMeasurement::<3, 2>::try_new([2, 2]).is_ok()
}
pub fn wrapped_residual(m: [f64; 3], p: [f64; 3]) -> ([f64; 4], [f64; 4]) {
    let r = residual_with_wrapped_angles(Vector::new(m), Vector::new(p), &[1]);
    let d = m[1] - p[1];
    ([r[0], r[1].cos(), r[1].sin(), r[2]], [m[0] - p[0], d.cos(), d.sin(), m[2] - p[2]])
}

// ---- particle clouds ----
pub fn gaussian_likelihood(l: [f64; 3], p: [f64; 2], z: [f64; 2]) -> (f64, f64) {
    let r = h_cov2(l);
    let g = GaussianLikelihood::new(Matrix::new(r)).unwrap();
    let d = h_sub(z, p);
    (g.log_weight(&p, &z), -0.5 * h_dot(d, h_mv(h_inv2(r), d)))
}
struct HDraws<const N: usize>([f64; N], usize);
impl<const N: usize> RandomSource<f64> for HDraws<N> {
    fn next_u32(&mut self) -> u32 {
        panic!()
    }
    fn next_unit(&mut self) -> f64 {
        self.1 += 1;
        self.0[self.1 - 1]
    }
    fn get_cache(&mut self) -> Option<f64> {
        None
    }
    fn set_cache(&mut self, _: f64) {}
}
fn h_weights(w: [f64; 2]) -> [f64; 3] {
    assume(w[0] > 0.01 && w[1] > 0.01 && w[0] + w[1] < 0.99);
    [w[0], w[1], 1.0 - w[0] - w[1]]
}
/// whose share of the unit line a position falls in
fn h_share(w: [f64; 3], x: f64) -> f64 {
    if x < w[0] {
        0.0
    } else if x < w[0] + w[1] {
        1.0
    } else {
        2.0
    }
}
fn h_resample<const N: usize>(s: ResamplingScheme, w: [f64; 3], u: [f64; N]) -> ([f64; 3], usize) {
    let mut i = [9usize; 3];
    let mut d = HDraws(u, 0);
    s.resample_indices(&w, &mut d, &mut i);
    ([i[0] as f64, i[1] as f64, i[2] as f64], d.1)
}
pub fn resample_systematic(w: [f64; 2], u: f64) -> (([f64; 3], usize), ([f64; 3], usize)) {
    assume(u > 0.0 && u < 1.0);
    let w = h_weights(w);
    (h_resample(ResamplingScheme::Systematic, w, [u]), ([h_share(w, u / 3.0), h_share(w, (u + 1.0) / 3.0), h_share(w, (u + 2.0) / 3.0)], 1))
}
pub fn resample_stratified(u: [f64; 3]) -> (([f64; 3], usize), ([f64; 3], usize)) {
    for x in u {
        assume(x > 0.0 && x < 1.0);
    }
    let w = [0.5, 0.1, 0.4];
    (h_resample(ResamplingScheme::Stratified, w, u), ([h_share(w, u[0] / 3.0), h_share(w, (u[1] + 1.0) / 3.0), h_share(w, (u[2] + 2.0) / 3.0)], 3))
}
pub fn resample_multinomial(w: [f64; 2], u: [f64; 3]) -> (([f64; 3], usize), ([f64; 3], usize)) {
    for x in u {
        assume(x > 0.0 && x < 1.0);
    }
    let w = h_weights(w);
    (h_resample(ResamplingScheme::Multinomial, w, u), ([h_share(w, u[0]), h_share(w, u[1]), h_share(w, u[2])], 3))
}
pub fn resample_residual(u: [f64; 2]) -> (([f64; 3], usize), ([f64; 3], usize)) {
    for x in u {
        assume(x > 0.0 && x < 1.0);
    }
    // three slots' shares are 1.5, 0.9 and 0.6: one whole copy, then fractions 0.5, 0.9 and 0.6 of two
    let left = |x: f64| h_share([0.25, 0.45, 0.3], x);
    (h_resample(ResamplingScheme::Residual, [0.5, 0.3, 0.2], u), ([0.0, left(u[0]), left(u[1])], 2))
}
pub fn resample_empty(u: f64) -> bool {
    let mut d = HDraws([u], 0);
    let mut i = [4usize; 2];
    for s in [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual] {
        s.resample_indices(&[], &mut d, &mut i);
    }
    i == [4, 4] && d.1 == 0
}
/// Marsaglia's polar method: the pair drawn and the pair kept back are orthonormal coordinates of one vector of length sqrt(-2 ln s)
struct HPolar([f64; 2], usize, Option<f64>);
impl RandomSource<f64> for HPolar {
    fn next_u32(&mut self) -> u32 {
        panic!()
    }
    fn next_unit(&mut self) -> f64 {
        self.1 += 1;
        self.0[self.1 - 1]
    }
    fn get_cache(&mut self) -> Option<f64> {
        self.2.take()
    }
    fn set_cache(&mut self, v: f64) {
        self.2 = Some(v)
    }
}
pub fn normal_polar(u: [f64; 2]) -> ([f64; 3], [f64; 3]) {
    let (x, y) = (2.0 * u[0] - 1.0, 2.0 * u[1] - 1.0);
    let s = x * x + y * y;
    assume(s > 0.0 && s < 1.0);
    let mut d = HPolar(u, 0, None);
    let a = d.standard_normal();
    let b = d.standard_normal();
    ([a * a + b * b, a * y, d.1 as f64], [-2.0 * s.ln(), b * x, 2.0])
}

// ---- longer histories, more states, and every setter ----
/// the defining equations of one reading, for any size
fn h_scalar_update<const N: usize>(x: [f64; N], p: M<N, N>, h: [f64; N], r: f64, z: f64) -> ([f64; N], M<N, N>) {
    let c = h_mv(p, h);
    let s = h_dot(h, c) + r;
    let y = z - h_dot(h, x);
    let mut o = p;
    let mut m = x;
    for i in 0..N {
        m[i] += c[i] * y / s;
        for j in 0..N {
            o[i][j] -= c[i] * c[j] / s;
        }
    }
    (m, o)
}
fn h_full<const N: usize, const U: usize>(p: [f64; U]) -> M<N, N> {
    let mut o = [[0.0; N]; N];
    let mut k = 0;
    for i in 0..N {
        for j in i..N {
            o[i][j] = p[k];
            o[j][i] = p[k];
            k += 1;
        }
    }
    o
}
pub fn kf_four_states_reading(x: [f64; 4], p: [f64; 10], h: [f64; 4], r: f64, z: f64) -> (([f64; 4], M<4, 4>), ([f64; 4], M<4, 4>)) {
    let p = h_full::<4, 10>(p);
    let s = h_dot(h, h_mv(p, h)) + r;
    assume(s > 0.01);
    let mut k = h_kf(x, p, h_id(), [h], [[0.0; 4]; 4], [[r]]);
    k.update(Vector::new([z])).unwrap();
    (h_kfs(&k), h_scalar_update(x, p, h, r, z))
}
pub fn kf_five_states_predict(x: [f64; 5], p: [f64; 15], f: M<5, 5>, q: [f64; 15]) -> (([f64; 5], M<5, 5>), ([f64; 5], M<5, 5>)) {
    let (p, q) = (h_full::<5, 15>(p), h_full::<5, 15>(q));
    let mut k = h_kf(x, p, f, [[1.0, 0.0, 0.0, 0.0, 0.0]], q, [[1.0]]);
    k.predict();
    (h_kfs(&k), (h_mv(f, x), h_plus(h_mul(h_mul(f, p), h_t(f)), q)))
}
pub fn kf_three_readings(x: [f64; 3], d: [f64; 3], r: [f64; 3], z: [f64; 3]) -> (([f64; 3], M<3, 3>), ([f64; 3], M<3, 3>)) {
    for i in 0..3 {
        assume(d[i] > 0.01 && r[i] > 0.01);
    }
    // readings of the second, third and first component, in that order
    let h = [[0.0, 1.0, 0.0], [0.0, 0.0, 2.0], [1.0, 0.0, 0.0]];
    let mut k = h_kf(x, h_diag(d), h_id(), h, [[0.0; 3]; 3], h_diag(r));
    k.update(Vector::new(z)).unwrap();
    let one = |x: f64, d: f64, h: f64, r: f64, z: f64| (x + d * h * (z - h * x) / (h * h * d + r), d * r / (h * h * d + r));
    let (a, b, c) = (one(x[0], d[0], 1.0, r[2], z[2]), one(x[1], d[1], 1.0, r[0], z[0]), one(x[2], d[2], 2.0, r[1], z[1]));
    (h_kfs(&k), ([a.0, b.0, c.0], h_diag([a.1, b.1, c.1])))
}
/// predict, reading, predict, reading
pub fn kf_history(x: [f64; 2], p: [f64; 2], t: f64, q: f64, r: f64, z: [f64; 2]) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    assume(p[0] > 0.01 && p[1] > 0.01 && q > 0.0 && r > 0.01);
    let f = [[1.0, t], [0.0, 1.0]];
    let (h, n) = ([1.0, 0.0], [[0.0, 0.0], [0.0, q]]);
    let mut k = h_kf(x, h_diag(p), f, [h], n, [[r]]);
    let (mut m, mut c) = (x, h_diag(p));
    for z in z {
        k.predict();
        k.update(Vector::new([z])).unwrap();
        m = h_mv(f, m);
        c = h_plus(h_mul(h_mul(f, c), h_t(f)), n);
        let u = h_scalar_update(m, c, h, r, z);
        m = u.0;
        c = u.1;
    }
    (h_kfs(&k), (m, c))
}
/// a model changed between two steps acts from then on
pub fn kf_setters_midway(x: [f64; 2], p: [f64; 3], f: M<2, 2>, q: [f64; 3], y: [f64; 2]) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let mut k = h_kf(x, h_s2(p), h_id(), [[1.0, 0.0]], [[0.0; 2]; 2], [[1.0]]);
    k.predict();
    k.set_state(Vector::new(y));
    k.set_state_transition(Matrix::new(f));
    k.predict();
    k.set_process_noise(Matrix::new(h_s2(q)));
    k.predict();
    let once = h_mul(h_mul(f, h_s2(p)), h_t(f));
    (h_kfs(&k), (h_mv(f, h_mv(f, y)), h_plus(h_mul(h_mul(f, once), h_t(f)), h_s2(q))))
}
/// a refused reading leaves the belief fit for the next one
pub fn kf_after_refusal(x: [f64; 2], p: [f64; 3], h: [f64; 2], r: f64, z: f64) -> (([f64; 2], M<2, 2>, f64), ([f64; 2], M<2, 2>, f64)) {
    let p = h_s2(p);
    let s = h_dot(h, h_mv(p, h)) + r;
    assume(s > 0.01);
    let mut k = h_kf(x, p, h_id(), [h], [[0.0; 2]; 2], [[r]]);
    assume(k.update(Vector::new([f64::NAN])).is_err());
    k.update(Vector::new([z])).unwrap();
    let (m, c) = h_scalar_update(x, p, h, r, z);
    ((*k.state().as_array(), k.covariance().into_array(), k.innovation()[0]), (m, c, z - h_dot(h, x)))
}
pub fn ekf_history(x: [f64; 2], d: [f64; 2], r: f64, z: [f64; 2]) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    assume(d[0] > 0.01 && d[1] > 0.01 && r > 0.01);
    let mut k = h_ekf(x, h_diag(d), [[0.0; 2]; 2], [[r]]);
    k.update(&HSum, Vector::new([z[0]])).unwrap();
    k.update(&HSum, Vector::new([z[1]])).unwrap();
    // the second reading is linearised where the first one left the estimate
    let (mut m, mut c) = (x, h_diag(d));
    for z in z {
        let h = [1.0, 2.0 * m[1]];
        let y = z - (m[0] + m[1] * m[1]);
        let u = h_scalar_update(m, c, h, r, y + h_dot(h, m));
        m = u.0;
        c = u.1;
    }
    (h_ekfs(&k), (m, c))
}
struct HSum;
impl VectorFn<2, 1> for HSum {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] {
        [x[0] + x[1] * x[1]]
    }
}
fn h_cov3(l: [f64; 6]) -> M<3, 3> {
    assume(l[0] * l[0] > 0.01 && l[2] * l[2] > 0.01 && l[5] * l[5] > 0.01);
    let f = [[l[0], 0.0, 0.0], [l[1], l[2], 0.0], [l[3], l[4], l[5]]];
    h_mul(f, h_t(f))
}
pub fn ukf_three_states_predict(x: [f64; 3], l: [f64; 6], f: M<3, 3>, q: [f64; 6]) -> (([f64; 3], M<3, 3>), ([f64; 3], M<3, 3>)) {
    let (p, q) = (h_cov3(l), h_full::<3, 6>(q));
    let mut k = h_ukf(x, p, q, [[1.0]]);
    k.predict(&HLinear(f)).unwrap();
    (h_ukfs(&k), (h_mv(f, x), h_plus(h_mul(h_mul(f, p), h_t(f)), q)))
}
pub fn ukf_three_states_reading(x: [f64; 3], d: [f64; 3], h: [f64; 3], r: f64, z: f64) -> (([f64; 3], M<3, 3>), ([f64; 3], M<3, 3>)) {
    let d = d.map(|d| d * d + 0.01);
    let r = r * r + 0.01;
    let mut k = h_ukf(x, h_diag(d), [[0.0; 3]; 3], [[r]]);
    k.predict(&HLinear(h_id::<3>())).unwrap();
    k.update(&HLinear([h]), Vector::new([z])).unwrap();
    (h_ukfs(&k), h_scalar_update(x, h_diag(d), h, r, z))
}
/// re-centring between predict and update moves the estimate, not the points the reading is compared with
pub fn ukf_recentred(x: f64, p: f64, r: f64, z: f64, s: f64) -> ([f64; 3], [f64; 3]) {
    let (p, r) = (p * p + 0.01, r * r + 0.01);
    let mut k = h_ukf([x], [[p]], [[0.0]], [[r]]);
    k.predict(&HLinear(h_id::<1>())).unwrap();
    k.set_state(Vector::new([s]));
    k.update(&HLinear([[1.0]]), Vector::new([z])).unwrap();
    ([k.state()[0], k.covariance()[(0, 0)], k.innovation()[0]], [s + p * (z - x) / (p + r), p * r / (p + r), z - x])
}
pub fn ukf_setters(x: f64, p: f64, q: f64, r: f64, z: f64) -> ([f64; 2], [f64; 2]) {
    let (p, q, r) = (p * p + 0.01, q * q + 0.01, r * r + 0.01);
    let mut a = h_ukf([0.0], [[p]], [[7.0]], [[9.0]]);
    a.set_state(Vector::new([x]));
    a.set_process_noise(Matrix::new([[q]]));
    a.set_measurement_noise(Matrix::new([[r]]));
    let mut b = h_ukf([x], [[p]], [[q]], [[r]]);
    for k in [&mut a, &mut b] {
        k.predict(&HLinear([[1.5]])).unwrap();
        k.update(&HLinear([[1.0]]), Vector::new([z])).unwrap();
    }
    ([a.state()[0], a.covariance()[(0, 0)]], [b.state()[0], b.covariance()[(0, 0)]])
}
pub fn ukf_predicts_twice(x: [f64; 2], d: [f64; 2], q: [f64; 2], t: f64) -> (([f64; 2], M<2, 2>), ([f64; 2], M<2, 2>)) {
    let (d, q) = (d.map(|d| d * d + 0.01), q.map(|d| d * d + 0.01));
    let f = [[1.0, t], [0.0, 1.0]];
    let mut k = h_ukf(x, h_diag(d), h_diag(q), [[1.0]]);
    k.predict(&HLinear(f)).unwrap();
    let p = k.covariance()[(0, 0)];
    let s = k.covariance()[(1, 1)];
    let c = k.covariance()[(0, 1)];
    assume(p > 0.0 && s - c * c / p > 0.0);
    k.predict(&HLinear(f)).unwrap();
    let step = |p: M<2, 2>| h_plus(h_mul(h_mul(f, p), h_t(f)), h_diag(q));
    (h_ukfs(&k), (h_mv(f, h_mv(f, x)), step(step(h_diag(d)))))
}
pub fn eskf_setters(p: [f64; 3], v: [f64; 3], n: [f64; 4], f: [f64; 3], t: f64) -> ((N5, M<15, 15>), (N5, M<15, 15>)) {
    let s = h_nominal(p, v, [1.0, 0.0, 0.0, 0.0], [0.0; 3], [0.0; 3]);
    let mut a = h_eskf::<1>(NominalState::at_rest(h_so3([0.0, 1.0, 0.0, 0.0])), h_id(), [9.0; 4], [[1.0]]);
    a.set_nominal_state(s);
    a.set_imu_noise(h_imu(n));
    let mut b = h_eskf::<1>(s, h_id(), n, [[1.0]]);
    for k in [&mut a, &mut b] {
        k.predict(v3([0.0; 3]), v3(f), t).unwrap();
    }
    ((h_parts(a.nominal_state()), a.covariance().into_array()), (h_parts(b.nominal_state()), b.covariance().into_array()))
}
pub fn eskf_measurement_noise(d: f64, r: f64, y: f64) -> ([f64; 4], [f64; 4]) {
    let (d, r) = (d * d + 0.01, r * r + 0.01);
    let mut k = h_eskf(NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0])), h_diag([d; 15]), [0.0; 4], [[5.0]]);
    k.set_measurement_noise(Matrix::new([[r]]));
    k.update_with_residual(&HSeen(1), Vector::new([y])).unwrap();
    (
        [k.innovation_covariance()[(0, 0)], k.nominal_state().velocity()[2], k.covariance()[(5, 5)], k.normalized_innovation_squared().unwrap()],
        [d + r, d * y / (d + r), d * r / (d + r), y * y / (d + r)],
    )
}
pub fn eskf_no_innovation_yet() -> bool {
    let k = h_eskf(NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0])), h_id(), [1.0; 4], [[1.0]]);
    k.normalized_innovation_squared() == Err(EstimationError::NotPositiveDefinite) && k.innovation()[0] == 0.0
}
/// a belief with every error tied to every other: the gain reaches all of them
pub fn eskf_update_correlated(d: [f64; 15], r: f64, y: f64) -> (([f64; 12], M<15, 15>), ([f64; 12], M<15, 15>)) {
    let r = r * r + 0.01;
    let mut d = d;
    d[6] = 0.0;
    d[7] = 0.0;
    d[8] = 0.0;
    let mut k = h_eskf(NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0])), h_outer(d), [0.0; 4], [[r]]);
    let s = d[5] * d[5] + r;
    k.update_with_residual(&HSeen(1), Vector::new([y])).unwrap();
    let mut e = [0.0; 15];
    e[5] = 1.0;
    let (m, c) = h_scalar_update([0.0; 15], h_outer(d), e, r, y);
    let n = h_parts(k.nominal_state());
    assume(s > 0.0);
    (
        (h_cat(n.0, n.1, n.3, n.4), k.covariance().into_array()),
        (h_cat([m[0], m[1], m[2]], [m[3], m[4], m[5]], [m[9], m[10], m[11]], [m[12], m[13], m[14]]), c),
    )
}
/// the turn found by an update is folded in and the belief turned with it, exactly as a reset does
pub fn eskf_update_then_reset(d: [f64; 4], r: f64, y: f64) -> (([f64; 4], M<15, 15>), ([f64; 4], M<15, 15>)) {
    let r = r * r + 0.01;
    let mut l = [0.0; 15];
    l[5] = d[0] * d[0] + 0.5;
    l[6] = d[1];
    l[7] = d[2];
    l[13] = d[3];
    let s = NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0]));
    let mut k = h_eskf(s, h_outer(l), [0.0; 4], [[r]]);
    k.update_with_residual(&HSeen(1), Vector::new([y])).unwrap();
    let mut e = [0.0; 15];
    e[5] = 1.0;
    let (m, c) = h_scalar_update([0.0; 15], h_outer(l), e, r, y);
    let mut w = h_eskf(s, c, [0.0; 4], [[r]]);
    w.inject_error_and_reset(Vector::new(m));
    ((h_q(k.nominal_state().orientation()), k.covariance().into_array()), (h_q(w.nominal_state().orientation()), w.covariance().into_array()))
}
/// lopsided entries are evened out, directions below the floor lifted to it, the others left
pub fn eskf_conditioned(k: f64, a: f64) -> (M<15, 15>, M<15, 15>) {
    let k = k * k + 0.5;
    let d = [1.0, -0.5, 2.0, 0.0, 3.0, 4.0, 0.125, 5.0, -7.0, 6.0, 0.25, 8.0, 9.0, 0.5, 10.0];
    let mut p = h_diag(d);
    for i in 0..15 {
        p[i][i] *= k;
    }
    p[0][2] = a;
    p[2][0] = -a;
    let mut f = h_eskf(NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0])), p, [0.0; 4], [[1.0]]);
    f.condition_covariance(0.25 * k).unwrap();
    (f.covariance().into_array(), h_diag(d.map(|d| if d < 0.25 { 0.25 * k } else { d * k })))
}
pub fn eskf_conditioning_refused(a: f64) -> bool {
    let mut p = h_id::<15>();
    p[3][3] = f64::NAN;
    p[0][1] = a;
    let mut f = h_eskf(NominalState::at_rest(h_so3([1.0, 0.0, 0.0, 0.0])), p, [0.0; 4], [[1.0]]);
    f.condition_covariance(0.25) == Err(EstimationError::NonFinite)
}
pub fn attitude_setters(u: [f64; 4], g: [f64; 3], b: [f64; 3], t: f64) -> (([f64; 4], [f64; 4]), ([f64; 4], [f64; 4])) {
    let q = h_so3(h_unit(u));
    let one = h_so3([1.0, 0.0, 0.0, 0.0]);
    let (mut f, mut h) = (MahonyFilter::new(one), MadgwickFilter::new(one));
    f.set_orientation(q);
    h.set_orientation(q);
    f.set_gyroscope_bias(v3(b));
    h.set_gyroscope_bias(v3(b));
    f.step_without_magnetometer(v3(g), v3([0.0; 3]), t).unwrap();
    h.step_without_magnetometer(v3(g), v3([0.0; 3]), t).unwrap();
    let o = h_q(ExponentialMap::attitude_step(q, v3(h_sub(g, b)), t).normalized());
    ((h_q(f.orientation()), h_q(h.orientation())), (o, o))
}
/// five slots: every scheme against its description, with the draws scaled by nothing
const HFIVE: [f64; 5] = [0.25, 0.0, 0.4375, 0.0625, 0.25];
fn h_five(x: f64) -> usize {
    if x < 0.25 {
        0
    } else if x < 0.6875 {
        2
    } else if x < 0.75 {
        3
    } else {
        4
    }
}
fn h_pick<const D: usize>(s: ResamplingScheme, u: [f64; D]) -> ([usize; 5], usize) {
    let mut i = [9usize; 5];
    let mut d = HDraws(u, 0);
    s.resample_indices(&HFIVE, &mut d, &mut i);
    (i, d.1)
}
pub fn resample_five_systematic() -> bool {
    [0.03125, 0.25, 0.3125, 0.4375, 0.5, 0.75, 0.96875].iter().all(|&u| h_pick(ResamplingScheme::Systematic, [u]) == ([h_five(u / 5.0), h_five((u + 1.0) / 5.0), h_five((u + 2.0) / 5.0), h_five((u + 3.0) / 5.0), h_five((u + 4.0) / 5.0)], 1))
}
pub fn resample_five_stratified() -> bool {
    [[0.0, 0.25, 0.5, 0.75, 0.96875], [0.96875, 0.25, 0.4375, 0.5, 0.0], [0.5, 0.3125, 0.96875, 0.96875, 0.25]].iter().all(|&u| {
        h_pick(ResamplingScheme::Stratified, u) == ([h_five(u[0] / 5.0), h_five((u[1] + 1.0) / 5.0), h_five((u[2] + 2.0) / 5.0), h_five((u[3] + 3.0) / 5.0), h_five((u[4] + 4.0) / 5.0)], 5)
    })
}
pub fn resample_five_multinomial() -> bool {
    [[0.0, 0.25, 0.5, 0.75, 0.96875], [0.6875, 0.65625, 0.703125, 0.125, 0.25]].iter().all(|&u| h_pick(ResamplingScheme::Multinomial, u) == ([h_five(u[0]), h_five(u[1]), h_five(u[2]), h_five(u[3]), h_five(u[4])], 5))
}
/// whole shares first: 1, 0, 2, 0 and 1 copies; one slot is left for the fractions 1/4, 0, 3/16, 5/16 and 1/4
pub fn resample_five_residual() -> bool {
    let last = |u: f64| if u < 0.25 { 0 } else if u < 0.4375 { 2 } else if u < 0.75 { 3 } else { 4 };
    [0.0, 0.125, 0.25, 0.375, 0.4375, 0.5, 0.75, 0.96875].iter().all(|&u| h_pick(ResamplingScheme::Residual, [u]) == ([0, 2, 2, 4, last(u)], 1))
}
/// weights that fall short of one: the last source catches what is left over
pub fn resample_short_weights() -> bool {
    [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial].iter().all(|s| {
        let mut i = [9usize; 3];
        s.resample_indices(&[0.25, 0.25, 0.25], &mut HDraws([0.9375; 3], 0), &mut i);
        i[2] == 2 && i[1] <= 2
    })
}
