//! Controllers: every command against the control law it is named after.
use crate::h_assume as assume;
use multicalc::control::*;
use multicalc::error::{ControlError, SignalError};
use multicalc::linear_algebra::*;
use multicalc::spatial::*;

type M<const R: usize, const C: usize> = [[f64; C]; R];
fn h_mul<const R: usize, const K: usize, const C: usize>(a: M<R, K>, b: M<K, C>) -> M<R, C> {
    let mut o = [[0.0; C]; R];
    for i in 0..R {
        for j in 0..C {
            for k in 0..K {
                o[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    o
}
fn h_t<const R: usize, const C: usize>(a: M<R, C>) -> M<C, R> {
    let mut o = [[0.0; R]; C];
    for i in 0..R {
        for j in 0..C {
            o[j][i] = a[i][j];
        }
    }
    o
}
fn h_mv<const R: usize, const C: usize>(a: M<R, C>, x: [f64; C]) -> [f64; R] {
    let mut o = [0.0; R];
    for i in 0..R {
        for j in 0..C {
            o[i] += a[i][j] * x[j];
        }
    }
    o
}
fn h_cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn h_dot<const N: usize>(a: [f64; N], b: [f64; N]) -> f64 {
    let mut s = 0.0;
    for i in 0..N {
        s += a[i] * b[i];
    }
    s
}
fn h_v<const N: usize>(a: [f64; N]) -> Vector<N, f64> {
    Vector::new(a)
}

// ---- PID ----
fn h_pid(g: [f64; 3], t: f64) -> Pid {
    assume(t > 0.01);
    Pid::new(g[0], g[1], g[2], t).unwrap()
}
/// unsaturated outputs of the textbook controller over a history
fn h_textbook<const N: usize>(g: [f64; 3], t: f64, a: f64, s: [f64; N], m: [f64; N]) -> [f64; N] {
    let mut o = [0.0; N];
    let mut sum = 0.0;
    let mut d = 0.0;
    for k in 0..N {
        sum += (s[k] - m[k]) * t;
        let raw = if k == 0 { 0.0 } else { -(m[k] - m[k - 1]) / t };
        d = if k == 0 { raw } else { a * raw + (1.0 - a) * d };
        o[k] = g[0] * (s[k] - m[k]) + g[1] * sum + g[2] * d;
    }
    o
}
pub fn pid_history(g: [f64; 3], t: f64, s: [f64; 4], m: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    let mut p = h_pid(g, t);
    let o = [p.update(s[0], m[0]), p.update(s[1], m[1]), p.update(s[2], m[2]), p.update(s[3], m[3])];
    (o, h_textbook(g, t, 1.0, s, m))
}
pub fn pid_filtered_history(g: [f64; 3], t: f64, a: f64, s: [f64; 4], m: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    assume(a >= 0.0 && a <= 1.0);
    let mut p = h_pid(g, t).with_derivative_filter(a).unwrap();
    let o = [p.update(s[0], m[0]), p.update(s[1], m[1]), p.update(s[2], m[2]), p.update(s[3], m[3])];
    (o, h_textbook(g, t, a, s, m))
}
pub fn pid_integral(g: [f64; 3], t: f64, s: [f64; 3], m: [f64; 3]) -> (f64, f64) {
    let mut p = h_pid(g, t);
    let _ = p.update(s[0], m[0]);
    let _ = p.update(s[1], m[1]);
    let _ = p.update(s[2], m[2]);
    (p.integral(), g[1] * t * (s[0] - m[0] + s[1] - m[1] + s[2] - m[2]))
}
pub fn pid_setpoint_jump(g: [f64; 3], t: f64, s: [f64; 2], m: f64) -> (f64, f64) {
    let mut p = h_pid(g, t);
    let first = p.update(s[0], m);
    (p.update(s[1], m) - first, g[0] * (s[1] - s[0]) + g[1] * t * (s[1] - m))
}
/// limits: the output of a step is the unsaturated output brought into the limits
pub fn pid_clamp(g: [f64; 3], t: f64, s: f64, m: f64) -> (f64, f64) {
    let l = [-1.0, 2.0];
    let mut p = h_pid(g, t).with_output_limits(l[0], l[1]).unwrap();
    let u = h_textbook(g, t, 1.0, [s], [m])[0];
    (p.update(s, m), if u > l[1] { l[1] } else if u < l[0] { l[0] } else { u })
}
pub fn pid_one_sided(g: [f64; 3], t: f64, l: f64, s: f64, m: f64) -> ([f64; 2], [f64; 2]) {
    let mut p = h_pid(g, t).with_output_limits(f64::NEG_INFINITY, l).unwrap();
    let mut q = h_pid(g, t).with_output_limits(l, f64::INFINITY).unwrap();
    let u = h_textbook(g, t, 1.0, [s], [m])[0];
    ([p.update(s, m), q.update(s, m)], [if u > l { l } else { u }, if u < l { l } else { u }])
}
/// the integral moves by its step unless that step pushes a saturated output further out
pub fn pid_anti_windup(g: [f64; 3], t: f64, s: f64, m: f64) -> (f64, f64) {
    let l = [-1.0, 2.0];
    let mut p = h_pid(g, t).with_output_limits(l[0], l[1]).unwrap();
    let u = h_textbook(g, t, 1.0, [s], [m])[0];
    let _ = p.update(s, m);
    let step = g[1] * (s - m) * t;
    let held = u > l[1] && step > 0.0 || u < l[0] && step < 0.0;
    (p.integral(), if held { 0.0 } else { step })
}
pub fn pid_anti_windup_second(g: [f64; 3], t: f64, s: f64, m: f64, n: f64) -> ([f64; 2], [f64; 2]) {
    let l = [-1.0, 2.0];
    let mut p = h_pid(g, t).with_output_limits(l[0], l[1]).unwrap();
    let _ = p.update(s, s);
    let u = g[0] * (m - n) + g[1] * (m - n) * t + g[2] * (s - n) / t;
    let o = p.update(m, n);
    let step = g[1] * (m - n) * t;
    let held = u > l[1] && step > 0.0 || u < l[0] && step < 0.0;
    ([o, p.integral()], [if u > l[1] { l[1] } else if u < l[0] { l[0] } else { u }, if held { 0.0 } else { step }])
}
pub fn pid_set_gains(g: [f64; 3], h: [f64; 3], t: f64, a: f64, s: [f64; 3], m: [f64; 3]) -> (f64, f64) {
    assume(a >= 0.0 && a <= 1.0);
    let mut p = h_pid(g, t).with_derivative_filter(a).unwrap();
    let _ = p.update(s[0], m[0]);
    let _ = p.update(s[1], m[1]);
    let last = p.update(s[2], m[2]);
    p.set_gains(h[0], h[1], h[2]).unwrap();
    // the very same terms under the new gains give what the old gains gave
    let d = a * ((m[1] - m[2]) / t) + (1.0 - a) * a * ((m[0] - m[1]) / t);
    (h[0] * (s[2] - m[2]) + p.integral() + h[2] * d, last)
}
pub fn pid_set_gains_then(g: [f64; 3], h: [f64; 3], t: f64, s: f64, m: f64) -> (f64, f64) {
    let mut p = h_pid(g, t);
    let last = p.update(s, m);
    p.set_gains(h[0], h[1], h[2]).unwrap();
    (p.update(s, m), last + h[1] * (s - m) * t)
}
pub fn pid_set_gains_first(g: [f64; 3], h: [f64; 3], t: f64, s: [f64; 2], m: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    let mut p = h_pid(g, t);
    p.set_gains(h[0], h[1], h[2]).unwrap();
    ([p.update(s[0], m[0]), p.update(s[1], m[1])], h_textbook(h, t, 1.0, s, m))
}
pub fn pid_resume(g: [f64; 3], t: f64, a: f64, o: f64, s: [f64; 3], m: [f64; 3]) -> (f64, f64) {
    assume(a >= 0.0 && a <= 1.0);
    let mut p = h_pid(g, t).with_derivative_filter(a).unwrap();
    let _ = p.update(s[0], m[0]);
    let _ = p.update(s[1], m[1]);
    p.resume_from(o, s[2], m[2]).unwrap();
    (p.update(s[2], m[2]), o)
}
pub fn pid_resume_then(g: [f64; 3], t: f64, o: f64, s: [f64; 3], m: [f64; 3]) -> (f64, f64) {
    let mut p = h_pid(g, t);
    let _ = p.update(s[0], m[0]);
    p.resume_from(o, s[1], m[1]).unwrap();
    let e = [s[1] - m[1], s[2] - m[2]];
    (p.update(s[2], m[2]), o + g[0] * (e[1] - e[0]) + g[1] * t * (e[1] - e[0]) - g[2] * (m[2] - m[1]) / t)
}
pub fn pid_reset(g: [f64; 3], t: f64, a: f64, s: [f64; 4], m: [f64; 4]) -> (([f64; 2], f64), ([f64; 2], f64)) {
    assume(a >= 0.0 && a <= 1.0);
    let mut p = h_pid(g, t).with_derivative_filter(a).unwrap();
    let _ = p.update(s[0], m[0]);
    let _ = p.update(s[1], m[1]);
    p.reset();
    let i = p.integral();
    (([p.update(s[2], m[2]), p.update(s[3], m[3])], i), (h_textbook(g, t, a, [s[2], s[3]], [m[2], m[3]]), 0.0))
}
pub fn pid_refuses(g: [f64; 3], t: f64, u: f64) -> bool {
    assume(t > 0.01 && u <= 0.0);
    Pid::new(g[0], g[1], g[2], u) == Err(ControlError::NonPositiveTimestep)
        && Pid::new(f64::NAN, g[1], g[2], t) == Err(ControlError::NonFinite)
        && Pid::new(g[0], f64::NAN, g[2], t) == Err(ControlError::NonFinite)
        && Pid::new(g[0], g[1], f64::INFINITY, t) == Err(ControlError::NonFinite)
        && Pid::new(g[0], g[1], g[2], f64::INFINITY) == Err(ControlError::NonFinite)
        && Pid::new(g[0], g[1], g[2], f64::NAN) == Err(ControlError::NonFinite)
}
pub fn pid_settings_refused(g: [f64; 3], t: f64, l: [f64; 2], a: f64) -> bool {
    assume(l[0] > l[1] && (a < 0.0 || a > 1.0));
    let p = h_pid(g, t);
    p.with_output_limits(l[0], l[1]) == Err(ControlError::InvalidOutputLimits)
        && p.with_output_limits(f64::NAN, l[1]) == Err(ControlError::NonFinite)
        && p.with_output_limits(l[0], f64::NAN) == Err(ControlError::NonFinite)
        && p.with_derivative_filter(a) == Err(ControlError::Signal(SignalError::CoefficientOutOfRange))
        && p.with_derivative_filter(f64::NAN) == Err(ControlError::Signal(SignalError::NonFinite))
}
pub fn pid_set_gains_refused(g: [f64; 3], h: [f64; 3], t: f64, s: [f64; 2], m: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    let mut p = h_pid(g, t);
    let first = p.update(s[0], m[0]);
    assume(p.set_gains(f64::NAN, h[1], h[2]) == Err(ControlError::NonFinite));
    assume(p.set_gains(h[0], f64::INFINITY, h[2]) == Err(ControlError::NonFinite));
    assume(p.set_gains(h[0], h[1], f64::NAN) == Err(ControlError::NonFinite));
    assume(p.resume_from(f64::NAN, s[1], m[1]) == Err(ControlError::NonFinite));
    assume(p.resume_from(h[0], f64::NAN, m[1]) == Err(ControlError::NonFinite));
    assume(p.resume_from(h[0], s[1], f64::NAN) == Err(ControlError::NonFinite));
    ([first, p.update(s[1], m[1])], h_textbook(g, t, 1.0, s, m))
}

// ---- linear-quadratic regulator, on a chain whose Riccati recursion is finite ----
fn h_lqr(x: f64, b: f64, q: [f64; 3], r: f64) -> Lqr<2, 1> {
    Lqr::new(Matrix::new([[0.0, x], [0.0, 0.0]]), Matrix::new([[b], [0.0]]), Matrix::new([[q[0], q[1]], [q[1], q[2]]]), Matrix::new([[r]])).unwrap()
}
pub fn lqr_gain(x: f64, b: f64, q: [f64; 3], r: f64) -> ((M<1, 2>, M<2, 2>), (M<1, 2>, M<2, 2>)) {
    let l = h_lqr(x, b, q, r);
    let (a, bm) = ([[0.0, x], [0.0, 0.0]], [[b], [0.0]]);
    let p = l.cost_to_go().into_array();
    let s = r + h_mul(h_t(bm), h_mul(p, bm))[0][0];
    let k = h_mul(h_t(bm), h_mul(p, a))[0];
    let g = [[k[0] / s, k[1] / s]];
    let bk = h_mul(bm, g);
    let mut c = a;
    for i in 0..2 {
        for j in 0..2 {
            c[i][j] -= bk[i][j];
        }
    }
    ((l.gain().into_array(), l.closed_loop().into_array()), (g, c))
}
pub fn lqr_cost(x: f64, b: f64, q: [f64; 3], r: f64) -> (M<2, 2>, M<2, 2>) {
    let l = h_lqr(x, b, q, r);
    let p = l.cost_to_go().into_array();
    // cost to go of the closed loop: P = Q + Kᵀ R K + Fᵀ P F
    let f = l.closed_loop().into_array();
    let k = l.gain().into_array()[0];
    let mut e = h_mul(h_t(f), h_mul(p, f));
    let qm = [[q[0], q[1]], [q[1], q[2]]];
    for i in 0..2 {
        for j in 0..2 {
            e[i][j] += qm[i][j] + k[i] * r * k[j];
        }
    }
    (p, e)
}
pub fn lqr_two_inputs(x: f64, b: M<2, 2>, q: [f64; 2], r: [f64; 2]) -> ((M<2, 2>, M<2, 2>), (M<2, 2>, M<2, 2>)) {
    let a = [[0.0, x], [0.0, 0.0]];
    let l = Lqr::new(Matrix::new(a), Matrix::new([[b[0][0], b[0][1]], [0.0, 0.0]]), Matrix::new([[q[0], 0.0], [0.0, q[1]]]), Matrix::new([[r[0], 0.0], [0.0, r[1]]])).unwrap();
    let bm = [[b[0][0], b[0][1]], [0.0, 0.0]];
    let p = l.cost_to_go().into_array();
    let k = l.gain().into_array();
    // (R + BᵀPB) K = BᵀPA
    let mut s = h_mul(h_t(bm), h_mul(p, bm));
    s[0][0] += r[0];
    s[1][1] += r[1];
    let bk = h_mul(bm, k);
    let f = [[a[0][0] - bk[0][0], a[0][1] - bk[0][1]], [a[1][0] - bk[1][0], a[1][1] - bk[1][1]]];
    ((h_mul(s, k), l.closed_loop().into_array()), (h_mul(h_t(bm), h_mul(p, a)), f))
}
pub fn lqr_control(x: f64, b: f64, q: [f64; 3], r: f64, s: [f64; 2], d: [f64; 2], u: f64) -> ([f64; 2], [f64; 2]) {
    let l = h_lqr(x, b, q, r);
    let k = l.gain().into_array()[0];
    (
        [l.control(h_v(s)).as_array()[0], l.control_tracking(h_v(s), h_v(d), h_v([u])).as_array()[0]],
        [-k[0] * s[0] - k[1] * s[1], u - k[0] * (s[0] - d[0]) - k[1] * (s[1] - d[1])],
    )
}
pub fn lqr_certificate(x: f64, b: f64, q: [f64; 2], r: f64) -> (M<2, 2>, M<2, 2>) {
    let l = h_lqr(x, b, [q[0], 0.0, q[1]], r);
    let p = l.certify_stability().unwrap().into_array();
    let f = l.closed_loop().into_array();
    let mut e = h_mul(h_t(f), h_mul(p, f));
    e[0][0] += q[0];
    e[1][1] += q[1];
    (p, e)
}

// ---- pure pursuit ----
fn h_pose(x: f64, y: f64, a: f64) -> SE2<f64> {
    SE2::from_parts(SO2::from_angle(a), Vector::new([x, y]))
}
/// the circle of that curvature, tangent to the heading, passes through the point
pub fn pursuit_circle(x: f64, y: f64, a: f64, p: [f64; 2]) -> (f64, f64) {
    let d2 = (p[0] - x) * (p[0] - x) + (p[1] - y) * (p[1] - y);
    assume(d2 > 0.01);
    let d = d2.sqrt();
    assume(d > 0.0);
    let k = pure_pursuit_curvature(h_pose(x, y, a), Vector::new(p), d).unwrap().value();
    // |point - centre|^2 = radius^2 with centre = position + left / k, multiplied through by k^2
    let left = [-a.sin(), a.cos()];
    let c = [k * (p[0] - x) - left[0], k * (p[1] - y) - left[1]];
    (h_dot(c, c), 1.0)
}
pub fn pursuit_lateral(x: f64, y: f64, a: f64, p: [f64; 2], d: f64) -> (f64, f64) {
    assume(d > 0.01);
    let k = pure_pursuit_curvature(h_pose(x, y, a), Vector::new(p), d).unwrap().value();
    (k * d * d, 2.0 * ((p[1] - y) * a.cos() - (p[0] - x) * a.sin()))
}
pub fn pursuit_twist(k: f64, v: f64) -> ([f64; 2], [f64; 2]) {
    let t = Curvature::new(k).to_body_twist(v);
    ([t.linear(), t.angular()], [v, v * k])
}
pub fn pursuit_refuses(x: f64, y: f64, a: f64, p: [f64; 2], d: f64) -> bool {
    assume(d <= 0.0);
    let s = h_pose(x, y, a);
    pure_pursuit_curvature(s, Vector::new(p), d) == Err(ControlError::NonPositiveLookaheadDistance)
        && pure_pursuit_curvature(s, Vector::new(p), f64::NAN) == Err(ControlError::NonPositiveLookaheadDistance)
        && pure_pursuit_curvature(s, Vector::new(p), f64::INFINITY) == Err(ControlError::NonPositiveLookaheadDistance)
        && pure_pursuit_curvature(s, Vector::new([f64::NAN, p[1]]), 1.0) == Err(ControlError::NonFinite)
        && pure_pursuit_curvature(s, Vector::new([p[0], f64::INFINITY]), 1.0) == Err(ControlError::NonFinite)
}

// ---- attitude ----
fn h_rot(q: [f64; 4]) -> SO3<f64> {
    let n = h_dot(q, q);
    assume(n > 0.01);
    let r = n.sqrt();
    SO3::from_quaternion(Quaternion::new(q[0] / r, q[1] / r, q[2] / r, q[3] / r))
}
pub fn attitude_error(q: [f64; 4], d: [f64; 4]) -> (([f64; 3], [f64; 3]), ([f64; 3], [f64; 3])) {
    let (a, b) = (h_rot(q), h_rot(d));
    let (ra, rb) = (a.to_matrix().into_array(), b.to_matrix().into_array());
    // half the vee of Rdᵀ R - Rᵀ Rd
    let u = h_mul(h_t(rb), ra);
    let e = [0.5 * (u[2][1] - u[1][2]), 0.5 * (u[0][2] - u[2][0]), 0.5 * (u[1][0] - u[0][1])];
    let g = GeometricAttitudeController::attitude_error(a, b);
    let h = GeometricAttitudeController::attitude_error(b, a);
    ((*g.as_array(), *h.as_array()), (e, [-e[0], -e[1], -e[2]]))
}
fn h_attitude(k: [f64; 2], j: [f64; 6]) -> (GeometricAttitudeController, M<3, 3>) {
    assume(k[0] > 0.01 && k[1] > 0.01);
    // an inertia from its factor
    assume(j[0] * j[0] > 0.01 && j[2] * j[2] > 0.01 && j[5] * j[5] > 0.01);
    let l = [[j[0], 0.0, 0.0], [j[1], j[2], 0.0], [j[3], j[4], j[5]]];
    let i = h_mul(l, h_t(l));
    (GeometricAttitudeController::new(k[0], k[1], Matrix::new(i)).unwrap(), i)
}
pub fn attitude_torque(k: [f64; 2], j: [f64; 6], q: [f64; 4], d: [f64; 4], w: [f64; 3], wd: [f64; 3], ad: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let (c, i) = h_attitude(k, j);
    let (a, b) = (h_rot(q), h_rot(d));
    let got = c.torque(a, Vector::new(w), b, Vector::new(wd), Vector::new(ad));
    let r = h_mul(h_t(a.to_matrix().into_array()), b.to_matrix().into_array());
    let e = *GeometricAttitudeController::attitude_error(a, b).as_array();
    let rw = h_mv(r, wd);
    let ra = h_mv(r, ad);
    let gyro = h_cross(w, h_mv(i, w));
    let wr = h_cross(w, rw);
    let f = h_mv(i, [wr[0] - ra[0], wr[1] - ra[1], wr[2] - ra[2]]);
    let mut o = [0.0; 3];
    for n in 0..3 {
        o[n] = -k[0] * e[n] - k[1] * (w[n] - rw[n]) + gyro[n] - f[n];
    }
    (*got.as_array(), o)
}
/// on the target, the torque is exactly the one that turns the body as the target turns
pub fn attitude_tracks(k: [f64; 2], j: [f64; 6], q: [f64; 4], w: [f64; 3], ad: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let (c, i) = h_attitude(k, j);
    let a = h_rot(q);
    let got = c.torque(a, Vector::new(w), a, Vector::new(w), Vector::new(ad));
    let gyro = h_cross(w, h_mv(i, w));
    let t = h_mv(i, ad);
    (*got.as_array(), [t[0] + gyro[0], t[1] + gyro[1], t[2] + gyro[2]])
}
pub fn attitude_parts(k: [f64; 2], j: [f64; 6]) -> ((M<3, 3>, [f64; 2]), (M<3, 3>, [f64; 2])) {
    let (c, i) = h_attitude(k, j);
    ((c.inertia().into_array(), [c.attitude_gain(), c.rate_gain()]), (i, k))
}
pub fn attitude_refuses(k: [f64; 2], z: f64, j: [f64; 3]) -> bool {
    assume(k[0] > 0.01 && k[1] > 0.01 && z <= 0.0 && j[0] > 0.01 && j[1] > 0.01 && j[2] > 0.01);
    let i = Matrix::new([[j[0], 0.0, 0.0], [0.0, j[1], 0.0], [0.0, 0.0, j[2]]]);
    let n = Matrix::new([[j[0], 0.0, 0.0], [0.0, z, 0.0], [0.0, 0.0, j[2]]]);
    let u = Matrix::new([[j[0], 0.0, 0.0], [0.0, j[1], 0.0], [0.25, 0.0, j[2]]]);
    let bad = Matrix::new([[j[0], 0.0, 0.0], [0.0, f64::NAN, 0.0], [0.0, 0.0, j[2]]]);
    GeometricAttitudeController::new(z, k[1], i) == Err(ControlError::NonPositiveGain)
        && GeometricAttitudeController::new(k[0], z, i) == Err(ControlError::NonPositiveGain)
        && GeometricAttitudeController::new(f64::NAN, k[1], i) == Err(ControlError::NonFinite)
        && GeometricAttitudeController::new(k[0], f64::INFINITY, i) == Err(ControlError::NonFinite)
        && GeometricAttitudeController::new(k[0], k[1], bad) == Err(ControlError::NonFinite)
        && GeometricAttitudeController::new(k[0], k[1], u) == Err(ControlError::NotSymmetricInertia)
        && GeometricAttitudeController::new(k[0], k[1], n) == Err(ControlError::NonPositiveInertia)
}

// ---- thrust ----
/// the body's own z axis carries the push
pub fn thrust_axis(a: [f64; 3], h: f64, g: f64) -> ([f64; 3], [f64; 3]) {
    let p = [a[0], a[1], a[2] + g];
    assume(h_dot(p, p) > 0.01);
    let c = thrust_command_from_acceleration(Vector::new(a), h, g).unwrap();
    let z = *c.attitude().act(Vector::new([0.0, 0.0, c.thrust_acceleration()])).as_array();
    (z, p)
}
pub fn thrust_size(a: [f64; 3], h: f64, g: f64, m: f64) -> ([f64; 2], [f64; 2]) {
    let p = [a[0], a[1], a[2] + g];
    assume(h_dot(p, p) > 0.01);
    let c = thrust_command_from_acceleration(Vector::new(a), h, g).unwrap();
    let t = c.thrust_acceleration();
    ([t * t, c.thrust_force(m)], [h_dot(p, p), m * t])
}
/// the left axis is level with the heading: it is at right angles to it
pub fn thrust_side(a: [f64; 3], h: f64, g: f64) -> (f64, f64) {
    let p = [a[0], a[1], a[2] + g];
    assume(h_dot(p, p) > 0.01);
    let c = thrust_command_from_acceleration(Vector::new(a), h, g).unwrap();
    let y = *c.attitude().act(Vector::new([0.0, 1.0, 0.0])).as_array();
    (y[0] * h.cos() + y[1] * h.sin(), 0.0)
}
/// the forward axis leans the way of the heading, never against it
pub fn thrust_forward(a: [f64; 3], h: f64, g: f64) -> bool {
    let p = [a[0], a[1], a[2] + g];
    assume(h_dot(p, p) > 0.01);
    match thrust_command_from_acceleration(Vector::new(a), h, g) {
        Err(_) => true,
        Ok(c) => {
            let x = *c.attitude().act(Vector::new([1.0, 0.0, 0.0])).as_array();
            x[0] * h.cos() + x[1] * h.sin() >= 0.0
        }
    }
}
pub fn thrust_hover(h: f64, g: f64) -> ((M<3, 3>, f64), (M<3, 3>, f64)) {
    assume(g > 0.01);
    let c = thrust_command_from_acceleration(Vector::new([0.0; 3]), h, g).unwrap();
    ((c.attitude().to_matrix().into_array(), c.thrust_acceleration()), ([[h.cos(), -h.sin(), 0.0], [h.sin(), h.cos(), 0.0], [0.0, 0.0, 1.0]], g))
}
pub fn thrust_undefined(h: f64, g: f64, s: f64) -> bool {
    assume(g > 0.01 && s * s > 0.1);
    thrust_command_from_acceleration(Vector::new([0.0, 0.0, -g]), h, g) == Err(ControlError::UndefinedThrustDirection)
        && thrust_command_from_acceleration(Vector::new([s, 0.0, -g]), 0.0, g) == Err(ControlError::UndefinedHeadingDirection)
        && thrust_command_from_acceleration(Vector::new([f64::NAN, 0.0, 0.0]), h, g) == Err(ControlError::NonFinite)
        && thrust_command_from_acceleration(Vector::new([s, 0.0, 0.0]), f64::NAN, g) == Err(ControlError::NonFinite)
        && thrust_command_from_acceleration(Vector::new([s, 0.0, 0.0]), h, f64::INFINITY) == Err(ControlError::NonFinite)
}

// ---- follow the gap: 5 beams over a full quarter each side (90 degrees, beams 45 degrees apart) ----
const FOV: f64 = 3.0;
fn h_gap(v: f64) -> FollowTheGap<5> {
    assume(v > 0.01);
    FollowTheGap::try_new(FOV, 10.0, 0.5, 2.0, v).unwrap()
}
type Out = ([f64; 4], [bool; 3]);
fn h_out(o: &FollowTheGapOutput, s: usize, e: usize) -> Out {
    (
        [o.body_twist().linear(), o.body_twist().angular(), o.heading(), o.minimum_clearance()],
        [o.gap_start_index() == s, o.gap_end_index() == e, o.is_blocked()],
    )
}
/// every beam free: the goal, brought into the field of view, at cruise speed
pub fn gap_open(v: f64, goal: f64) -> (Out, Out) {
    let o = h_gap(v).compute(&[10.0; 5], goal).unwrap();
    let a = if goal < -1.5 { -1.5 } else if goal > 1.5 { 1.5 } else { goal };
    (h_out(&o, 0, 4), ([v, 1.5 * a, a, 10.0], [true, true, false]))
}
/// readings that are no measurement count as free, readings beyond the range as the range
pub fn gap_no_reading(v: f64, goal: f64, n: f64, far: f64) -> (Out, Out) {
    assume(n <= 0.0 && far >= 10.0);
    let o = h_gap(v).compute(&[f64::NAN, n, f64::INFINITY, far, 10.0], goal).unwrap();
    let a = if goal < -1.5 { -1.5 } else if goal > 1.5 { 1.5 } else { goal };
    (h_out(&o, 0, 4), ([v, 1.5 * a, a, 10.0], [true, true, false]))
}
/// the rightmost beam blocked: the aim keeps half a chassis off the obstacle
pub fn gap_right_blocked(v: f64, goal: f64, r: f64) -> (Out, Out) {
    assume(r > 0.3 && r < 2.0 && goal > -1.4 && goal < 1.4);
    let o = h_gap(v).compute(&[r, 10.0, 10.0, 10.0, 10.0], goal).unwrap();
    let low = -0.75 + (0.25 / r).atan();
    let a = if goal < low { low } else if goal > 1.5 { 1.5 } else { goal };
    (h_out(&o, 1, 4), ([v, 1.5 * a, a, r], [true, true, false]))
}
pub fn gap_left_blocked(v: f64, goal: f64, r: f64) -> (Out, Out) {
    assume(r > 0.3 && r < 2.0 && goal > -1.4 && goal < 1.4);
    let o = h_gap(v).compute(&[10.0, 10.0, 10.0, 10.0, r], goal).unwrap();
    let high = 0.75 - (0.25 / r).atan();
    let a = if goal > high { high } else if goal < -1.5 { -1.5 } else { goal };
    (h_out(&o, 0, 3), ([v, 1.5 * a, a, r], [true, true, false]))
}
/// everything nearer than the threshold: stopped
pub fn gap_blocked(v: f64, goal: f64, r: f64) -> (Out, Out) {
    assume(r > 0.0 && r < 2.0);
    let o = h_gap(v).compute(&[r, 1.0 + 0.5 * r, r, 1.0 + 0.5 * r, r], goal).unwrap();
    (h_out(&o, 0, 0), ([0.0, 0.0, 0.0, r], [true, true, true]))
}
/// a reading exactly at the threshold is free
pub fn gap_threshold(v: f64, goal: f64) -> (Out, Out) {
    let o = h_gap(v).compute(&[2.0; 5], goal).unwrap();
    let a = if goal < -1.5 { -1.5 } else if goal > 1.5 { 1.5 } else { goal };
    // frontal clearance 2, stopping 0.25, clear 10
    (h_out(&o, 0, 4), ([v * (1.75 / 9.75), 1.5 * a, a, 2.0], [true, true, false]))
}
/// speed falls linearly with the clearance ahead between the two distances
pub fn gap_speed(v: f64, d: f64, s: f64, c: f64) -> (Out, Out) {
    assume(d >= 2.0 && d < 10.0 && s >= 0.0 && c > s);
    let o = h_gap(v).with_speed_scaling(s, c).unwrap().compute(&[10.0, 10.0, d, 10.0, 10.0], 0.0).unwrap();
    let f = (d - s) / (c - s);
    let f = if f < 0.0 { 0.0 } else if f > 1.0 { 1.0 } else { f };
    (h_out(&o, 0, 4), ([v * f, 0.0, 0.0, d], [true, true, false]))
}
/// beams outside the frontal cone do not slow the vehicle; those on its edge do
pub fn gap_frontal(v: f64, d: f64) -> ((f64, f64), (f64, f64)) {
    assume(d >= 2.0 && d < 10.0);
    let narrow = h_gap(v).with_frontal_half_angle(0.5).unwrap().compute(&[d, d, 10.0, d, d], 0.0).unwrap();
    let edge = h_gap(v).with_frontal_half_angle(0.75).unwrap().compute(&[10.0, 10.0, 10.0, d, 10.0], 0.0).unwrap();
    ((narrow.body_twist().linear(), edge.body_twist().linear()), (v, v * (d - 0.25) / 9.75))
}
pub fn gap_steering_gain(v: f64, goal: f64, k: f64) -> (f64, f64) {
    assume(k > 0.01 && goal < 1.5 && goal > -1.5);
    let o = h_gap(v).with_steering_gain(k).unwrap().compute(&[10.0; 5], goal).unwrap();
    (o.body_twist().angular(), k * goal)
}
/// two gaps of the same width: the one nearer the goal
pub fn gap_nearer(v: f64, goal: f64) -> (([bool; 2], f64), ([bool; 2], f64)) {
    assume(goal > 0.01);
    let o = h_gap(v).with_goal_bias(0.3).unwrap().compute(&[10.0, 10.0, 1.0, 10.0, 10.0], goal).unwrap();
    let low = 0.75 + 0.25f64.atan();
    let a = if goal < low { low } else if goal > 1.5 { 1.5 } else { goal };
    (([o.gap_start_index() == 3, o.gap_end_index() == 4], o.heading()), ([true, true], a))
}
pub fn gap_nearer_other(v: f64, goal: f64) -> (([bool; 2], f64), ([bool; 2], f64)) {
    assume(goal < -0.01);
    let o = h_gap(v).with_goal_bias(0.3).unwrap().compute(&[10.0, 10.0, 1.0, 10.0, 10.0], goal).unwrap();
    let high = -0.75 - 0.25f64.atan();
    let a = if goal > high { high } else if goal < -1.5 { -1.5 } else { goal };
    (([o.gap_start_index() == 0, o.gap_end_index() == 1], o.heading()), ([true, true], a))
}
/// a gap the chassis does not fit through is passed over, however well it is placed
pub fn gap_too_narrow(v: f64, d: f64) -> (([bool; 3], f64), ([bool; 3], f64)) {
    // beams 0.75 apart: the opening between neighbours at range d is 2 d sin 0.75
    assume(d > 0.01 && d < 1.0 && d * d < 0.13);
    let o = h_gap(v).compute(&[1.0, d, 10.0, d, 10.0], 0.0).unwrap();
    (([o.gap_start_index() == 4, o.gap_end_index() == 4, o.is_blocked()], o.minimum_clearance()), ([true, true, false], d))
}
pub fn gap_wide_enough(v: f64, d: f64) -> (([bool; 3], f64), ([bool; 3], f64)) {
    assume(d > 0.01 && d < 1.9 && d * d > 0.14);
    let o = h_gap(v).compute(&[1.0, d, 10.0, d, 1.0], 0.0).unwrap();
    (([o.gap_start_index() == 2, o.gap_end_index() == 2, o.is_blocked()], o.heading()), ([true, true, false], 0.0))
}
/// no room inside the margins: the middle of the gap
pub fn gap_middle(v: f64, goal: f64) -> (f64, f64) {
    let o = FollowTheGap::<5>::try_new(FOV, 10.0, 2.0, 2.0, v);
    assume(v > 0.01);
    let o = o.unwrap().compute(&[1.5, 1.5, 10.0, 10.0, 1.5], goal).unwrap();
    (o.heading(), 0.375)
}
pub fn gap_beams(f: f64, v: f64) -> ([f64; 5], [f64; 5]) {
    assume(f > 0.01 && f < 6.0 && v > 0.01);
    let g = FollowTheGap::<5>::try_new(f, 10.0, 0.5, 2.0, v).unwrap();
    let b = |i: usize| g.beam_angle(i).unwrap();
    assume(g.beam_angle(5).is_none());
    ([b(0), b(1), b(2), b(3), b(4)], [-f / 2.0, -f / 4.0, 0.0, f / 4.0, f / 2.0])
}
/// reflecting the scan and the goal reflects the command
pub fn gap_mirror(v: f64, goal: f64, r: f64) -> ((f64, f64, f64), (f64, f64, f64)) {
    assume(r > 0.3 && r < 10.0 && goal > -1.4 && goal < 1.4);
    let a = h_gap(v).compute(&[r, 10.0, 10.0, 10.0, 10.0], goal).unwrap();
    let b = h_gap(v).compute(&[10.0, 10.0, 10.0, 10.0, r], -goal).unwrap();
    ((a.heading(), a.body_twist().linear(), a.body_twist().angular()), (-b.heading(), b.body_twist().linear(), -b.body_twist().angular()))
}
pub fn gap_refuses(z: f64, f: f64, r: f64, v: f64) -> bool {
    assume(z <= 0.0 && f > 6.3 && r > 10.0 && v > 0.01);
    let t = |a: f64, b: f64, c: f64, d: f64, e: f64| FollowTheGap::<5>::try_new(a, b, c, d, e).err();
    t(z, 10.0, 0.5, 2.0, v) == Some(ControlError::InvalidFieldOfView)
        && t(f, 10.0, 0.5, 2.0, v) == Some(ControlError::InvalidFieldOfView)
        && t(3.0, z, 0.5, 2.0, v) == Some(ControlError::NonPositiveRange)
        && t(3.0, 10.0, 0.5, z, v) == Some(ControlError::NonPositiveRange)
        && t(3.0, 10.0, 0.5, r, v) == Some(ControlError::NonPositiveRange)
        && t(3.0, 10.0, z, 2.0, v) == Some(ControlError::NonPositiveChassisWidth)
        && t(3.0, 10.0, 2.0 * r, 2.0, v) == Some(ControlError::NonPositiveChassisWidth)
        && t(3.0, 10.0, 20.0, 2.0, v) == Some(ControlError::NonPositiveChassisWidth)
        && t(3.0, 10.0, 0.5, 2.0, z) == Some(ControlError::NonPositiveSpeed)
        && FollowTheGap::<1>::try_new(3.0, 10.0, 0.5, 2.0, v).err() == Some(ControlError::InvalidBeamCount)
}
pub fn gap_refuses_nan(v: f64) -> bool {
    assume(v > 0.01);
    let t = |a: f64, b: f64, c: f64, d: f64, e: f64| FollowTheGap::<5>::try_new(a, b, c, d, e).err() == Some(ControlError::NonFinite);
    let n = f64::NAN;
    t(n, 10.0, 0.5, 2.0, v) && t(3.0, n, 0.5, 2.0, v) && t(3.0, 10.0, n, 2.0, v) && t(3.0, 10.0, 0.5, n, v) && t(3.0, 10.0, 0.5, 2.0, n)
        && h_gap(v).compute(&[1.0; 5], n).err() == Some(ControlError::NonFinite)
        && h_gap(v).with_steering_gain(n).err() == Some(ControlError::NonFinite)
        && h_gap(v).with_goal_bias(n).err() == Some(ControlError::NonFinite)
        && h_gap(v).with_speed_scaling(n, 1.0).err() == Some(ControlError::NonFinite)
        && h_gap(v).with_speed_scaling(0.5, n).err() == Some(ControlError::NonFinite)
        && h_gap(v).with_frontal_half_angle(n).err() == Some(ControlError::NonFinite)
}
pub fn gap_settings_refused(v: f64, z: f64, s: f64, c: f64) -> bool {
    assume(z < 0.0 && s >= c && c > 0.0);
    h_gap(v).with_steering_gain(z).err() == Some(ControlError::NonPositiveSpeed)
        && h_gap(v).with_steering_gain(0.0).err() == Some(ControlError::NonPositiveSpeed)
        && h_gap(v).with_goal_bias(z).err() == Some(ControlError::NegativeGoalBias)
        && h_gap(v).with_goal_bias(0.0).is_ok()
        && h_gap(v).with_speed_scaling(z, c).err() == Some(ControlError::InvalidSpeedScaling)
        && h_gap(v).with_speed_scaling(s, c).err() == Some(ControlError::InvalidSpeedScaling)
        && h_gap(v).with_frontal_half_angle(z).err() == Some(ControlError::InvalidFieldOfView)
        && h_gap(v).with_frontal_half_angle(0.0).err() == Some(ControlError::InvalidFieldOfView)
        && h_gap(v).with_frontal_half_angle(1.6).err() == Some(ControlError::InvalidFieldOfView)
        && h_gap(v).with_frontal_half_angle(1.5).is_ok()
}

// ---- PID: scripted histories against the state machine the documentation describes ----
#[derive(Clone, Copy)]
enum HEvent {
    Update(f64, f64),
    Gains([f64; 3]),
    Resume(f64, f64, f64),
    Reset,
}
use HEvent::{Gains, Reset, Resume, Update};
/// output and integral after every event; an event that gives no output reports zero
fn h_reference<const N: usize>(g: [f64; 3], t: f64, a: f64, lo: f64, hi: f64, k: f64, e: [HEvent; N]) -> ([f64; N], [f64; N]) {
    let mut g = g;
    let (mut i, mut d, mut pm, mut pe) = (0.0, 0.0, 0.0, 0.0);
    let mut has = false;
    let mut primed = false;
    let mut out = [0.0; N];
    let mut int = [0.0; N];
    for n in 0..N {
        match e[n] {
            Update(s, m) => {
                let err = (s - m) * k;
                let raw = if has { (pm - m * k) / t } else { 0.0 };
                d = if primed { a * raw + (1.0 - a) * d } else { raw };
                primed = true;
                pm = m * k;
                pe = err;
                has = true;
                let step = g[1] * err * t;
                let full = g[0] * err + i + step + g[2] * d;
                let deeper = (full > hi * k && step > 0.0) || (full < lo * k && step < 0.0);
                if !deeper {
                    i += step;
                }
                out[n] = if full > hi * k { hi * k } else if full < lo * k { lo * k } else { full };
            }
            Gains(h) => {
                if has {
                    i += (g[0] - h[0]) * pe + (g[2] - h[2]) * d;
                }
                g = h;
            }
            Resume(o, s, m) => {
                let err = (s - m) * k;
                i = o * k - g[0] * err - g[1] * err * t;
                d = 0.0;
                primed = false;
                pm = m * k;
                pe = err;
                has = true;
            }
            Reset => {
                i = 0.0;
                d = 0.0;
                primed = false;
                pm = 0.0;
                pe = 0.0;
                has = false;
            }
        }
        int[n] = i;
    }
    (out, int)
}
fn h_script<const N: usize>(g: [f64; 3], t: f64, a: f64, lo: f64, hi: f64, k: f64, e: [HEvent; N]) -> ([f64; N], [f64; N]) {
    let mut c = Pid::new(g[0], g[1], g[2], t).unwrap().with_output_limits(lo * k, hi * k).unwrap().with_derivative_filter(a).unwrap();
    let mut out = [0.0; N];
    let mut int = [0.0; N];
    for n in 0..N {
        match e[n] {
            Update(s, m) => out[n] = c.update(s * k, m * k),
            Gains(h) => c.set_gains(h[0], h[1], h[2]).unwrap(),
            Resume(o, s, m) => c.resume_from(o * k, s * k, m * k).unwrap(),
            Reset => c.reset(),
        }
        int[n] = c.integral();
    }
    (out, int)
}
macro_rules! h_scripts {
    ($($name:ident: $g:expr, $t:expr, $a:expr, $lo:expr, $hi:expr, [$($e:expr),*];)*) => {
        $(pub fn $name(k: f64) -> (([f64; h_scripts!(@n $($e),*)], [f64; h_scripts!(@n $($e),*)]), ([f64; h_scripts!(@n $($e),*)], [f64; h_scripts!(@n $($e),*)])) {
            assume(k > 0.1);
            assume(k < 1e6);
            let e = [$($e),*];
            (h_script($g, $t, $a, $lo, $hi, k, e), h_reference($g, $t, $a, $lo, $hi, k, e))
        })*
    };
    (@n $($e:expr),*) => { 0 $(+ h_scripts!(@one $e))* };
    (@one $e:expr) => { 1 };
}
h_scripts! {
    script_saturate_recover: [2.0, 1.0, 0.25], 0.5, 1.0, -4.0, 4.0,
        [Update(3.0, 0.0), Update(3.0, 0.0), Update(3.0, 2.0), Update(3.0, 2.75), Update(3.0, 4.0), Update(3.0, 8.0), Update(3.0, 3.5), Update(3.0, 3.0)];
    script_filter_saturation: [1.0, 0.5, 1.0], 0.25, 0.5, -3.0, 5.0,
        [Update(2.0, 0.0), Update(2.0, 1.0), Update(2.0, -3.0), Update(8.0, -2.0), Update(-1.0, 1.0), Update(0.5, 0.75)];
    script_reverse_acting: [-1.0, -2.0, 0.0], 0.5, 1.0, -3.0, 3.0,
        [Update(1.0, 0.0), Update(4.0, 0.0), Update(-4.0, 0.0), Update(-1.0, 0.0), Update(0.0, 1.0)];
    script_opposed_integral: [3.0, -1.0, 0.0], 0.5, 1.0, -2.0, 2.0,
        [Update(2.0, 0.0), Update(2.0, 0.0), Update(-2.0, 0.0), Update(0.25, 0.0)];
    script_gains_after_resume: [2.0, 1.0, 0.5], 0.5, 0.25, -50.0, 50.0,
        [Resume(3.0, 2.0, 1.0), Gains([1.0, 2.0, 3.0]), Update(2.0, 1.0), Update(2.0, 1.5), Gains([4.0, 0.0, 1.0]), Update(2.0, 1.5)];
    script_gains_twice: [2.0, 1.0, 0.5], 0.5, 0.25, -50.0, 50.0,
        [Update(3.0, 1.0), Update(3.0, 2.0), Gains([1.0, 2.0, 3.0]), Gains([0.0, -1.0, 2.0]), Update(3.0, 2.5)];
    script_gains_while_saturated: [2.0, 1.0, 0.5], 0.5, 0.5, -1.0, 1.0,
        [Update(3.0, 1.0), Update(3.0, 2.0), Gains([0.25, 0.5, 0.0]), Update(3.0, 2.5), Update(3.0, 3.5)];
    script_resume_after_run: [2.0, 1.0, 0.5], 0.5, 0.5, -50.0, 50.0,
        [Update(1.0, 0.0), Update(1.0, 2.0), Resume(0.5, 1.0, 4.0), Update(1.0, 4.0), Update(1.0, 3.0), Update(1.0, 2.5)];
    script_resume_beyond_limits: [2.0, 1.0, 0.5], 0.5, 0.5, -5.0, 5.0,
        [Resume(9.0, 1.0, 0.5), Update(1.0, 0.5), Update(1.0, 2.0), Update(1.0, 5.0)];
    script_reset_after_saturation: [2.0, 1.0, 0.5], 0.5, 0.5, -2.0, 2.0,
        [Update(4.0, 0.0), Update(4.0, 1.0), Reset, Update(0.5, 1.0), Update(0.5, 0.75)];
    script_reset_then_gains: [2.0, 1.0, 0.5], 0.5, 0.5, -9.0, 9.0,
        [Update(1.0, 0.0), Reset, Gains([1.0, 1.0, 1.0]), Update(1.0, 0.5), Update(1.0, 0.25)];
    script_reset_then_resume: [2.0, 1.0, 0.5], 0.5, 0.5, -9.0, 9.0,
        [Update(1.0, 0.0), Update(1.0, 1.0), Reset, Resume(1.0, 0.0, 0.5), Update(0.0, 0.5), Reset, Update(1.0, 0.0)];
    script_equal_limits: [2.0, 1.0, 0.5], 0.5, 1.0, 1.5, 1.5,
        [Update(1.0, 0.0), Update(1.0, 0.5), Update(1.0, 2.0), Update(1.0, 1.0)];
    script_at_the_limit: [1.0, 1.0, 0.0], 1.0, 1.0, -2.0, 2.0,
        [Update(1.0, 0.0), Update(1.0, 0.0), Update(-1.0, 0.0), Update(-1.0, 0.0), Update(-1.0, 0.0), Update(-1.0, 0.0)];
}
