//! Quaternions, SO(2), SE(2), SO(3), SE(3), twists, wrenches, inertias and the free joint.
use crate::h_assume as assume;
use multicalc::linear_algebra::*;
use multicalc::spatial::*;
use multicalc::{Jet, Numeric};

type Q = Quaternion<f64>;
type M3 = [[f64; 3]; 3];
type J6 = Jet<f64, 6>;

fn v3<T: Numeric>(a: [T; 3]) -> Vector<3, T> {
    Vector::new(a)
}
fn q(a: [f64; 4]) -> Q {
    Quaternion::new(a[0], a[1], a[2], a[3])
}
fn h_n2(a: [f64; 4]) -> f64 {
    a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
}
/// Hamilton product
fn h_qmul(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
/// every unit quaternion is q^2/|q|^2 for some q
fn h_unit(a: [f64; 4]) -> [f64; 4] {
    let n = h_n2(a);
    let s = h_qmul(a, a);
    [s[0] / n, s[1] / n, s[2] / n, s[3] / n]
}
fn h_so3(a: [f64; 4]) -> SO3 {
    SO3::from_quaternion(q(h_unit(a)))
}
fn h_se3(a: [f64; 4], t: [f64; 3]) -> SE3 {
    SE3::from_parts(h_so3(a), v3(t))
}
/// rotation matrix of a unit quaternion
fn h_rot(u: [f64; 4]) -> M3 {
    let [w, x, y, z] = u;
    [
        [w * w + x * x - y * y - z * z, 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]
}
fn h_mv<const N: usize>(m: [[f64; N]; N], x: [f64; N]) -> [f64; N] {
    let mut o = [0.0; N];
    for i in 0..N {
        for j in 0..N {
            o[i] += m[i][j] * x[j];
        }
    }
    o
}
fn h_mm<const N: usize>(a: [[f64; N]; N], b: [[f64; N]; N]) -> [[f64; N]; N] {
    let mut o = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            for k in 0..N {
                o[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    o
}
fn h_t<const N: usize>(a: [[f64; N]; N]) -> [[f64; N]; N] {
    let mut o = a;
    for i in 0..N {
        for j in 0..N {
            o[i][j] = a[j][i];
        }
    }
    o
}
fn h_id<const N: usize>() -> [[f64; N]; N] {
    let mut o = [[0.0; N]; N];
    for i in 0..N {
        o[i][i] = 1.0;
    }
    o
}
fn h_lin<const N: usize>(a: f64, x: [[f64; N]; N], b: f64, y: [[f64; N]; N]) -> [[f64; N]; N] {
    let mut o = x;
    for i in 0..N {
        for j in 0..N {
            o[i][j] = a * x[i][j] + b * y[i][j];
        }
    }
    o
}
fn h_cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn h_dot<const N: usize>(a: [f64; N], b: [f64; N]) -> f64 {
    let mut s = 0.0;
    for i in 0..N {
        s += a[i] * b[i];
    }
    s
}
fn h_add<const N: usize>(a: [f64; N], b: [f64; N]) -> [f64; N] {
    let mut o = a;
    for i in 0..N {
        o[i] += b[i];
    }
    o
}
fn h_skew(a: [f64; 3]) -> M3 {
    [[0.0, -a[2], a[1]], [a[2], 0.0, -a[0]], [-a[1], a[0], 0.0]]
}
fn h_out(m: Matrix<3, 3, f64>) -> M3 {
    m.into_array()
}
/// homogeneous matrix
fn h_hom(r: M3, t: [f64; 3]) -> [[f64; 4]; 4] {
    let mut o = [[0.0; 4]; 4];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = r[i][j];
        }
        o[i][3] = t[i];
    }
    o[3][3] = 1.0;
    o
}
fn h_split(x: [f64; 6]) -> ([f64; 3], [f64; 3]) {
    ([x[0], x[1], x[2]], [x[3], x[4], x[5]])
}
fn h_join(a: [f64; 3], b: [f64; 3]) -> [f64; 6] {
    [a[0], a[1], a[2], b[0], b[1], b[2]]
}

// ---- quaternions ----
pub fn q_product(a: [f64; 4], b: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    ((q(a) * q(b)).as_array(), h_qmul(a, b))
}
pub fn q_linear(a: [f64; 4], b: [f64; 4], s: f64) -> ([[f64; 4]; 3], [[f64; 4]; 3]) {
    let mut o = [[0.0; 4]; 3];
    for i in 0..4 {
        o[0][i] = a[i] + b[i];
        o[1][i] = a[i] - b[i];
        o[2][i] = -a[i] * s;
    }
    ([(q(a) + q(b)).as_array(), (q(a) - q(b)).as_array(), (-q(a) * s).as_array()], o)
}
pub fn q_conjugate(a: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    (q(a).conjugate().as_array(), [a[0], -a[1], -a[2], -a[3]])
}
pub fn q_norms(a: [f64; 4], b: [f64; 4]) -> ([f64; 3], [f64; 3]) {
    ([q(a).norm_squared(), q(a).norm() * q(a).norm(), q(a).dot(q(b))], [h_n2(a), h_n2(a), h_dot(a, b)])
}
pub fn q_inverse(a: [f64; 4]) -> ([[f64; 4]; 2], [[f64; 4]; 2]) {
    let i = q(a).inverse();
    ([(q(a) * i).as_array(), (i * q(a)).as_array()], [[1.0, 0.0, 0.0, 0.0]; 2])
}
pub fn q_normalized(a: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    let n = q(a).normalized();
    let s = h_n2(a).sqrt();
    (n.as_array(), [a[0] / s, a[1] / s, a[2] / s, a[3] / s])
}
pub fn q_try_normalized(a: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    let s = h_n2(a).sqrt();
    match q(a).try_normalized() {
        Some(n) => (n.as_array(), [a[0] / s, a[1] / s, a[2] / s, a[3] / s]),
        None => {
            assume(s <= f64::EPSILON);
            ([0.0; 4], [0.0; 4])
        }
    }
}
pub fn q_parts(a: [f64; 4]) -> ([f64; 12], [f64; 12]) {
    let x = q(a);
    let f = Quaternion::from_scalar_vector(a[0], v3([a[1], a[2], a[3]])).as_array();
    let g = Quaternion::from_array(a);
    let v = *x.vec().as_array();
    ([x.w(), x.x(), x.y(), x.z(), f[0], f[1], f[2], f[3], g.w(), v[0], v[1], v[2]], [a[0], a[1], a[2], a[3], a[0], a[1], a[2], a[3], a[0], a[1], a[2], a[3]])
}
pub fn q_identity(a: [f64; 4]) -> ([[f64; 4]; 2], [[f64; 4]; 2]) {
    ([(q(a) * Quaternion::identity()).as_array(), (Quaternion::default() * q(a)).as_array()], [a, a])
}
/// sandwiching a unit quaternion rotates by its matrix
pub fn q_transform(a: [f64; 4], p: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let u = h_unit(a);
    (*q(u).transform_point(v3(p)).as_array(), h_mv(h_rot(u), p))
}
pub fn q_inverse_transform(a: [f64; 4], p: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let u = h_unit(a);
    (*q(u).inverse_transform_point(v3(p)).as_array(), h_mv(h_t(h_rot(u)), p))
}
pub fn q_matrix(a: [f64; 4]) -> (M3, M3) {
    let u = h_unit(a);
    (h_out(q(u).to_rotation_matrix()), h_rot(u))
}
/// recovered up to sign from the matrix, whichever of the four formulas is taken
pub fn q_from_matrix(a: [f64; 4]) -> (M3, M3) {
    let r = h_rot(h_unit(a));
    (h_rot(Quaternion::try_from_rotation_matrix(Matrix::new(r)).unwrap().as_array()), r)
}
pub fn q_from_matrix_unit(a: [f64; 4]) -> (f64, f64) {
    let r = h_rot(h_unit(a));
    (h_n2(Quaternion::try_from_rotation_matrix(Matrix::new(r)).unwrap().as_array()), 1.0)
}
/// Rodrigues: cos a I + sin a [n] + (1 - cos a) n n^T
fn h_rodrigues(n: [f64; 3], s: f64, c: f64) -> M3 {
    let k = h_skew(n);
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = s * k[i][j] + (1.0 - c) * n[i] * n[j];
        }
        o[i][i] += c;
    }
    o
}
pub fn q_axis_angle(n: [f64; 3], t: f64) -> (M3, M3) {
    let l = (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt();
    assume(l > 1e-3);
    (h_rot(Quaternion::from_axis_angle(v3(n), t).as_array()), h_rodrigues([n[0] / l, n[1] / l, n[2] / l], t.sin(), t.cos()))
}
pub fn q_axis_angle_half(n: [f64; 3], t: f64) -> (f64, f64) {
    let l = (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt();
    assume(l > 1e-3);
    (Quaternion::from_axis_angle(v3(n), t).w(), (t * 0.5).cos())
}
pub fn q_scaled_axis(n: [f64; 3]) -> (M3, M3) {
    let t2 = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
    assume(t2 > 1e-3);
    let l = t2.sqrt();
    (h_rot(Quaternion::from_scaled_axis(v3(n)).as_array()), h_rodrigues([n[0] / l, n[1] / l, n[2] / l], l.sin(), l.cos()))
}
/// near zero: the Taylor coefficients along every direction are those of cos(|v|/2), sin(|v|/2)/|v| v
pub fn q_scaled_axis_small(d: [f64; 3]) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    let o = Quaternion::<Jet<f64, 4>>::from_scaled_axis(h_line(d)).as_array();
    let n2 = h_dot(d, d);
    ([o[0].coeffs, o[1].coeffs, o[2].coeffs, o[3].coeffs], [[1.0, 0.0, -n2 / 8.0, 0.0], h_odd(d[0], n2), h_odd(d[1], n2), h_odd(d[2], n2)])
}
fn h_odd(d: f64, n2: f64) -> [f64; 4] {
    [0.0, d / 2.0, 0.0, -d * n2 / 48.0]
}
/// t -> t d as jets at t = 0
fn h_line<const N: usize, const K: usize>(d: [f64; N]) -> Vector<N, Jet<f64, K>> {
    let mut o = [Jet::<f64, K>::new([0.0; K]); N];
    for i in 0..N {
        let mut c = [0.0; K];
        c[1] = d[i];
        o[i] = Jet::new(c);
    }
    Vector::new(o)
}
/// yaw after pitch after roll
pub fn q_euler(r: f64, p: f64, y: f64) -> (M3, M3) {
    let rx = [[1.0, 0.0, 0.0], [0.0, r.cos(), -r.sin()], [0.0, r.sin(), r.cos()]];
    let ry = [[p.cos(), 0.0, p.sin()], [0.0, 1.0, 0.0], [-p.sin(), 0.0, p.cos()]];
    let rz = [[y.cos(), -y.sin(), 0.0], [y.sin(), y.cos(), 0.0], [0.0, 0.0, 1.0]];
    (h_rot(Quaternion::from_euler_zyx(r, p, y).as_array()), h_mm(rz, h_mm(ry, rx)))
}
/// away from gimbal lock the angles rebuild the rotation
pub fn q_to_euler(a: [f64; 4]) -> (M3, M3) {
    let u = h_unit(a);
    let s = 2.0 * (u[0] * u[2] - u[3] * u[1]);
    assume(s.abs() < 0.999);
    let (r, p, y) = q(u).to_euler_zyx();
    let rx = [[1.0, 0.0, 0.0], [0.0, r.cos(), -r.sin()], [0.0, r.sin(), r.cos()]];
    let ry = [[p.cos(), 0.0, p.sin()], [0.0, 1.0, 0.0], [-p.sin(), 0.0, p.cos()]];
    let rz = [[y.cos(), -y.sin(), 0.0], [y.sin(), y.cos(), 0.0], [0.0, 0.0, 1.0]];
    (h_mm(rz, h_mm(ry, rx)), h_rot(u))
}
/// in gimbal lock (pitch = +-90 degrees) too
pub fn q_to_euler_lock(t: f64, neg: bool) -> (M3, M3) {
    // rotations with pitch pi/2: w = y, x = -z   (pitch -pi/2: w = -y, x = z)
    let h = 0.5f64.sqrt();
    let s = if neg { -1.0 } else { 1.0 };
    let u = [t.cos() * h, t.sin() * h, s * t.cos() * h, -s * t.sin() * h];
    let (r, p, y) = q(u).to_euler_zyx();
    let rx = [[1.0, 0.0, 0.0], [0.0, r.cos(), -r.sin()], [0.0, r.sin(), r.cos()]];
    let ry = [[p.cos(), 0.0, p.sin()], [0.0, 1.0, 0.0], [-p.sin(), 0.0, p.cos()]];
    let rz = [[y.cos(), -y.sin(), 0.0], [y.sin(), y.cos(), 0.0], [0.0, 0.0, 1.0]];
    (h_mm(rz, h_mm(ry, rx)), h_rot(u))
}
pub fn q_to_axis_angle(a: [f64; 4]) -> (M3, M3) {
    let u = h_unit(a);
    let s2 = u[1] * u[1] + u[2] * u[2] + u[3] * u[3];
    assume(s2 > 1e-3);
    let (n, t) = q(u).to_axis_angle();
    (h_rodrigues(*n.as_array(), t.sin(), t.cos()), h_rot(u))
}
pub fn q_to_axis_angle_unit(a: [f64; 4]) -> ([f64; 2], [f64; 2]) {
    let u = h_unit(a);
    let s2 = u[1] * u[1] + u[2] * u[2] + u[3] * u[3];
    assume(s2 > 1e-3);
    let (n, t) = q(u).to_axis_angle();
    ([n.dot(n), (t * 0.5).cos()], [1.0, u[0].abs()])
}
/// exp of log
pub fn q_scaled_axis_round(a: [f64; 4]) -> (M3, M3) {
    let u = h_unit(a);
    let s2 = u[1] * u[1] + u[2] * u[2] + u[3] * u[3];
    assume(s2 > 1e-3);
    let v = q(u).to_scaled_axis();
    assume(v.dot(v) > 1e-3);
    (h_rot(Quaternion::from_scaled_axis(v).as_array()), h_rot(u))
}
/// the scaled axis is the axis times the angle
pub fn q_scaled_axis_is_axis_angle(a: [f64; 4]) -> ([f64; 3], [f64; 3]) {
    let u = h_unit(a);
    let s2 = u[1] * u[1] + u[2] * u[2] + u[3] * u[3];
    assume(s2 > 1e-3);
    let (n, t) = q(u).to_axis_angle();
    (*q(u).to_scaled_axis().as_array(), [n[0] * t, n[1] * t, n[2] * t])
}
/// exp of a general quaternion: e^w (cos |v|, sin |v| v/|v|)
pub fn q_exp(a: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    let v2 = a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
    assume(v2 > 1e-3);
    let v = v2.sqrt();
    let s = a[0].exp() * v.sin() / v;
    (q(a).exp().as_array(), [a[0].exp() * v.cos(), a[1] * s, a[2] * s, a[3] * s])
}
pub fn q_exp_small(w: f64, d: [f64; 3]) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    let v = h_line::<3, 4>(d);
    let o = Quaternion::new(Jet::<f64, 4>::constant(w), v[0], v[1], v[2]).exp().as_array();
    let n2 = h_dot(d, d);
    let e = w.exp();
    let f = |x: f64| [0.0, e * x, 0.0, -e * x * n2 / 6.0];
    ([o[0].coeffs, o[1].coeffs, o[2].coeffs, o[3].coeffs], [[e, 0.0, -e * n2 / 2.0, 0.0], f(d[0]), f(d[1]), f(d[2])])
}
pub fn q_log(a: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    let v = (a[1] * a[1] + a[2] * a[2] + a[3] * a[3]).sqrt();
    assume(v > 1e-3);
    let n = h_n2(a).sqrt();
    let c = v.atan2(a[0]) / v;
    (q(a).log().as_array(), [n.ln(), a[1] * c, a[2] * c, a[3] * c])
}
/// the shortest rotation taking one direction to the other
pub fn q_two_vectors(a: [f64; 4], k: f64, l: f64) -> ([f64; 3], [f64; 3]) {
    let (k, l) = (k * k + 0.01, l * l + 0.01);
    let r = h_rot(h_unit(a));
    let (f, g) = ([0.0, 0.0, k], [r[0][2] * l, r[1][2] * l, r[2][2] * l]);
    for i in 0..3 {
        let s = l / g[i];
        assume(s * s > 0.0);
    }
    let u = Quaternion::from_two_vectors(v3(f), v3(g));
    (*u.transform_point(v3([0.0, 0.0, 1.0])).as_array(), [r[0][2], r[1][2], r[2][2]])
}
pub fn q_two_vectors_opposite(a: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    assume(a[0] > 1e-3);
    let u = Quaternion::from_two_vectors(v3(a), v3([-a[0], -a[1], -a[2]]));
    (*u.transform_point(v3(a)).as_array(), [-a[0], -a[1], -a[2]])
}
pub fn q_angle_to(a: [f64; 4], n: [f64; 4], t: f64) -> (f64, f64) {
    let u = h_unit(a);
    let m = h_rot(h_unit(n));
    let d = Quaternion::from_axis_angle(v3([m[0][0], m[1][0], m[2][0]]), t);
    let x = q(u).rotation_angle_to(q(u) * d);
    (x.cos(), t.cos())
}
/// slerp runs along the geodesic at constant speed
pub fn q_slerp(a: [f64; 4], n: [f64; 3], t: f64, s: f64) -> ([f64; 4], [f64; 4]) {
    let u = q(h_unit(a));
    let c = t.cos();
    let l = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
    assume(l > 1e-3);
    let l = l.sqrt();
    let d = Quaternion::new(c, t.sin() * n[0] / l, t.sin() * n[1] / l, t.sin() * n[2] / l);
    let b = u * d;
    let e = u.dot(b);
    assume(e > 1e-3 && e < 0.999);
    let r = u.slerp(b, s);
    let th = e.acos();
    // u^-1 r = (cos s th, sin s th axis)
    let x = (u.conjugate() * r).as_array();
    let k = (s * th).sin() / th.sin();
    let v = d.as_array();
    (x, [(s * th).cos(), v[1] * k, v[2] * k, v[3] * k])
}
/// ... and takes the short way round
pub fn q_slerp_short(a: [f64; 4], b: [f64; 4], s: f64) -> ([f64; 4], [f64; 4]) {
    let (u, v) = (q(h_unit(a)), q(h_unit(b)));
    assume(u.dot(v) < -1e-3);
    (u.slerp(v, s).as_array(), u.slerp(-v, s).as_array())
}
pub fn q_slerp_near(a: [f64; 4]) -> ([[f64; 4]; 2], [[f64; 4]; 2]) {
    let u = q(h_unit(a));
    ([u.slerp(u, 0.0).as_array(), u.slerp(u, 1.0).as_array()], [h_unit(a); 2])
}

// ---- SO(2), SE(2) ----
fn h_hom2(t: f64, p: [f64; 2]) -> M3 {
    [[t.cos(), -t.sin(), p[0]], [t.sin(), t.cos(), p[1]], [0.0, 0.0, 1.0]]
}
fn h_se2(t: f64, p: [f64; 2]) -> SE2 {
    SE2::from_parts(SO2::from_angle(t), Vector::new(p))
}
pub fn so2_matrix(t: f64) -> ([[f64; 2]; 2], [[f64; 2]; 2]) {
    (SO2::from_angle(t).to_matrix().into_array(), [[t.cos(), -t.sin()], [t.sin(), t.cos()]])
}
pub fn so2_group(a: f64, b: f64) -> ([(f64, f64); 4], [(f64, f64); 4]) {
    let (x, y) = (SO2::from_angle(a), SO2::exp(b));
    ([x.compose(y).cos_sin(), (x * y).cos_sin(), x.inverse().cos_sin(), SO2::<f64>::identity().cos_sin()], [((a + b).cos(), (a + b).sin()), ((a + b).cos(), (a + b).sin()), (a.cos(), -a.sin()), (1.0, 0.0)])
}
pub fn so2_act(a: f64, p: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    (*SO2::from_angle(a).act(Vector::new(p)).as_array(), [a.cos() * p[0] - a.sin() * p[1], a.sin() * p[0] + a.cos() * p[1]])
}
pub fn so2_log(a: f64) -> ((f64, f64), (f64, f64)) {
    let l = SO2::from_angle(a).log();
    ((l.cos(), l.sin()), (a.cos(), a.sin()))
}
pub fn so2_hat(a: f64) -> ([[f64; 2]; 2], [[f64; 2]; 2]) {
    (SO2::hat(a).into_array(), [[0.0, -a], [a, 0.0]])
}
pub fn so2_vee(a: f64) -> ([f64; 6], [f64; 6]) {
    ([SO2::vee(SO2::hat(a)), SO2::from_angle(a).adjoint(), SO2::left_jacobian(a), SO2::right_jacobian(a), SO2::left_jacobian_inverse(a), SO2::right_jacobian_inverse(a)], [a, 1.0, 1.0, 1.0, 1.0, 1.0])
}
pub fn so2_from_matrix(a: f64) -> ((f64, f64), (f64, f64)) {
    (SO2::try_from_matrix(Matrix::new([[a.cos(), -a.sin()], [a.sin(), a.cos()]])).unwrap().cos_sin(), (a.cos(), a.sin()))
}
pub fn so2_from_matrix_rejects_reflection(a: f64) -> (bool, bool) {
    (SO2::try_from_matrix(Matrix::new([[a.cos(), a.sin()], [a.sin(), -a.cos()]])).is_none(), true)
}
pub fn so2_from_matrix_rejects_scale(a: f64, s: f64) -> (bool, bool) {
    assume(s > 1.001 && s * s > 1.0);
    (SO2::try_from_matrix(Matrix::new([[s * a.cos(), -s * a.sin()], [s * a.sin(), s * a.cos()]])).is_none(), true)
}
pub fn so2_interpolate(a: f64, b: f64, s: f64) -> ((f64, f64), (f64, f64)) {
    let l = SO2::from_angle(b - a).log();
    (SO2::from_angle(a).interpolate(SO2::from_angle(b), s).cos_sin(), ((a + s * l).cos(), (a + s * l).sin()))
}
pub fn so2_norm(a: f64) -> ([f64; 3], [f64; 3]) {
    let x = SO2::from_angle(a);
    let n = x.normalized().cos_sin();
    ([x.norm(), n.0, n.1], [1.0, a.cos(), a.sin()])
}
pub fn se2_matrix(t: f64, p: [f64; 2]) -> (M3, M3) {
    (h_out(h_se2(t, p).to_matrix()), h_hom2(t, p))
}
pub fn se2_compose(s: f64, p: [f64; 2], t: f64, r: [f64; 2]) -> ([M3; 2], [M3; 2]) {
    let e = h_mm(h_hom2(s, p), h_hom2(t, r));
    ([h_out(h_se2(s, p).compose(h_se2(t, r)).to_matrix()), h_out((h_se2(s, p) * h_se2(t, r)).to_matrix())], [e, e])
}
pub fn se2_inverse(t: f64, p: [f64; 2]) -> ([M3; 3], [M3; 3]) {
    let x = h_se2(t, p);
    ([h_out(x.compose(x.inverse()).to_matrix()), h_out(x.inverse().compose(x).to_matrix()), h_out(SE2::identity().to_matrix())], [h_id(); 3])
}
pub fn se2_act(t: f64, p: [f64; 2], x: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    let e = h_mv(h_hom2(t, p), [x[0], x[1], 1.0]);
    (*h_se2(t, p).act(Vector::new(x)).as_array(), [e[0], e[1]])
}
pub fn se2_hat(x: [f64; 3]) -> (M3, M3) {
    (h_out(SE2::hat(v3(x))), [[0.0, -x[2], x[0]], [x[2], 0.0, x[1]], [0.0, 0.0, 0.0]])
}
pub fn se2_vee(x: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    (*SE2::vee(SE2::hat(v3(x))).as_array(), x)
}
/// g hat(x) g^-1 = hat(Ad_g x)
pub fn se2_adjoint(t: f64, p: [f64; 2], x: [f64; 3]) -> (M3, M3) {
    let g = h_se2(t, p);
    let l = h_mm(h_mm(h_hom2(t, p), h_out(SE2::hat(v3(x)))), h_out(g.inverse().to_matrix()));
    (l, h_out(SE2::hat(g.adjoint() * v3(x))))
}
/// exp(hat x) = I + hat + (1-cos)/w^2 hat^2 + (w - sin w)/w^3 hat^3
pub fn se2_exp(x: [f64; 3]) -> (M3, M3) {
    let w = x[2];
    assume(w * w > 1e-3);
    let k = h_out(SE2::hat(v3(x)));
    let k2 = h_mm(k, k);
    let k3 = h_mm(k2, k);
    let e = h_lin(1.0, h_lin(1.0, h_id(), 1.0, k), 1.0, h_lin((1.0 - w.cos()) / (w * w), k2, (w - w.sin()) / (w * w * w), k3));
    (h_out(SE2::exp(v3(x)).to_matrix()), e)
}
/// sum of hat^k t^k / k! near zero
pub fn se2_exp_small(x: [f64; 3]) -> ([M3; 4], [M3; 4]) {
    let m = SE2::<Jet<f64, 4>>::exp(h_line(x)).to_matrix().into_array();
    let k = h_out(SE2::hat(v3(x)));
    let mut p = h_id();
    let mut want = [p; 4];
    let mut got = want;
    for n in 0..4 {
        if n > 0 {
            p = h_lin(1.0 / n as f64, h_mm(p, k), 0.0, k);
        }
        want[n] = p;
        for i in 0..3 {
            for j in 0..3 {
                got[n][i][j] = m[i][j].coeffs[n];
            }
        }
    }
    (got, want)
}
pub fn se2_log(t: f64, p: [f64; 2]) -> (M3, M3) {
    let x = h_se2(t, p).log();
    assume(x[2] * x[2] > 1e-3);
    (h_out(SE2::exp(x).to_matrix()), h_hom2(t, p))
}
pub fn se2_log_small(x: [f64; 3]) -> ([[f64; 3]; 3], [[f64; 3]; 3]) {
    let e = SE2::<Jet<f64, 3>>::exp(h_line(x)).log();
    ([e[0].coeffs, e[1].coeffs, e[2].coeffs], [[0.0, x[0], 0.0], [0.0, x[1], 0.0], [0.0, x[2], 0.0]])
}
fn h_ad2(x: [f64; 3]) -> M3 {
    [[0.0, -x[2], x[1]], [x[2], 0.0, -x[0]], [0.0, 0.0, 0.0]]
}
/// J_l = sum ad^k/(k+1)! = I + (1-cos)/w^2 ad + (w - sin w)/w^3 ad^2
pub fn se2_left_jacobian(x: [f64; 3]) -> (M3, M3) {
    let w = x[2];
    assume(w * w > 1e-3);
    let a = h_ad2(x);
    (h_out(SE2::left_jacobian(v3(x))), h_lin(1.0, h_id(), 1.0, h_lin((1.0 - w.cos()) / (w * w), a, (w - w.sin()) / (w * w * w), h_mm(a, a))))
}
pub fn se2_left_jacobian_small(x: [f64; 3]) -> ([M3; 4], [M3; 4]) {
    h_series(SE2::<Jet<f64, 4>>::left_jacobian(h_line(x)).into_array(), h_ad2(x), [1.0, 0.5, 1.0 / 6.0, 1.0 / 24.0])
}
/// coefficients of t^n in a jet-valued matrix, against c_n A^n
fn h_series<const N: usize, const K: usize>(m: [[Jet<f64, K>; N]; N], a: [[f64; N]; N], c: [f64; K]) -> ([[[f64; N]; N]; K], [[[f64; N]; N]; K]) {
    let mut p = h_id();
    let mut want = [p; K];
    let mut got = want;
    for n in 0..K {
        if n > 0 {
            p = h_mm(p, a);
        }
        want[n] = h_lin(c[n], p, 0.0, p);
        for i in 0..N {
            for j in 0..N {
                got[n][i][j] = m[i][j].coeffs[n];
            }
        }
    }
    (got, want)
}
pub fn se2_right_jacobian(x: [f64; 3]) -> (M3, M3) {
    let w = x[2];
    assume(w * w > 1e-3);
    (h_out(SE2::right_jacobian(v3(x))), h_out(SE2::left_jacobian(v3([-x[0], -x[1], -x[2]]))))
}
pub fn se2_jacobian_inverses(x: [f64; 3]) -> ([M3; 2], [M3; 2]) {
    let w = x[2];
    assume(w * w > 1e-3);
    assume(w.cos() != 1.0);
    ([h_mm(h_out(SE2::left_jacobian(v3(x))), h_out(SE2::left_jacobian_inverse(v3(x)))), h_mm(h_out(SE2::right_jacobian(v3(x))), h_out(SE2::right_jacobian_inverse(v3(x))))], [h_id(); 2])
}
/// x/(1 - e^-x) = 1 - x/2 + x^2/12
pub fn se2_left_jacobian_inverse_small(x: [f64; 3]) -> ([M3; 4], [M3; 4]) {
    h_series(SE2::<Jet<f64, 4>>::left_jacobian_inverse(h_line(x)).into_array(), h_ad2(x), [1.0, -0.5, 1.0 / 12.0, 0.0])
}
pub fn se2_from_matrix(t: f64, p: [f64; 2]) -> (M3, M3) {
    (h_out(SE2::try_from_matrix(Matrix::new(h_hom2(t, p))).unwrap().to_matrix()), h_hom2(t, p))
}
pub fn se2_from_matrix_rejects_bottom(t: f64, p: [f64; 2], e: f64) -> ([bool; 3], [bool; 3]) {
    assume(e > 1e-3);
    let mut o = [false; 3];
    for i in 0..3 {
        let mut m = h_hom2(t, p);
        m[2][i] += e;
        o[i] = SE2::try_from_matrix(Matrix::new(m)).is_none();
    }
    (o, [true; 3])
}
pub fn se2_interpolate(s: f64, p: [f64; 2], t: f64, r: [f64; 2]) -> ([M3; 2], [M3; 2]) {
    let (x, y) = (h_se2(s, p), h_se2(t, r));
    let l = x.inverse().compose(y).log();
    assume(l[2] * l[2] > 1e-3);
    ([h_out(x.interpolate(y, 0.0).to_matrix()), h_out(x.interpolate(y, 1.0).to_matrix())], [h_hom2(s, p), h_hom2(t, r)])
}
pub fn se2_interpolate_geodesic(s: f64, p: [f64; 2], t: f64, r: [f64; 2], k: f64) -> (M3, M3) {
    let (x, y) = (h_se2(s, p), h_se2(t, r));
    let l = x.inverse().compose(y).log();
    (h_out(x.interpolate(y, k).to_matrix()), h_out(x.compose(SE2::exp(v3([l[0] * k, l[1] * k, l[2] * k]))).to_matrix()))
}

// ---- SO(3), SE(3) ----
pub fn so3_matrix(a: [f64; 4]) -> ([M3; 2], [M3; 2]) {
    let r = h_rot(h_unit(a));
    ([h_out(h_so3(a).to_matrix()), h_out(h_so3(a).adjoint())], [r, r])
}
pub fn so3_from_quaternion(a: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    let n = h_n2(a).sqrt();
    (SO3::from_quaternion(q(a)).quaternion().as_array(), [a[0] / n, a[1] / n, a[2] / n, a[3] / n])
}
pub fn so3_try_from_quaternion(a: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    let n = h_n2(a).sqrt();
    assume(n > 1e-3);
    (SO3::try_from_quaternion(q(a)).unwrap().quaternion().as_array(), [a[0] / n, a[1] / n, a[2] / n, a[3] / n])
}
pub fn so3_compose(a: [f64; 4], b: [f64; 4]) -> ([M3; 2], [M3; 2]) {
    let e = h_mm(h_rot(h_unit(a)), h_rot(h_unit(b)));
    ([h_out(h_so3(a).compose(h_so3(b)).to_matrix()), h_out((h_so3(a) * h_so3(b)).to_matrix())], [e, e])
}
pub fn so3_inverse(a: [f64; 4]) -> ([M3; 2], [M3; 2]) {
    ([h_out(h_so3(a).inverse().to_matrix()), h_out(SO3::identity().to_matrix())], [h_t(h_rot(h_unit(a))), h_id()])
}
pub fn so3_act(a: [f64; 4], p: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    (*h_so3(a).act(v3(p)).as_array(), h_mv(h_rot(h_unit(a)), p))
}
pub fn so3_hat(x: [f64; 3]) -> (M3, M3) {
    (h_out(SO3::hat(v3(x))), h_skew(x))
}
pub fn so3_vee(x: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    (*SO3::vee(SO3::hat(v3(x))).as_array(), x)
}
pub fn so3_exp(x: [f64; 3]) -> (M3, M3) {
    let t2 = h_dot(x, x);
    assume(t2 > 1e-3);
    let t = t2.sqrt();
    let k = h_skew(x);
    (h_out(SO3::exp(v3(x)).to_matrix()), h_lin(1.0, h_id(), 1.0, h_lin(t.sin() / t, k, (1.0 - t.cos()) / t2, h_mm(k, k))))
}
pub fn so3_log(a: [f64; 4]) -> (M3, M3) {
    let x = h_so3(a);
    let u = h_unit(a);
    assume(u[1] * u[1] + u[2] * u[2] + u[3] * u[3] > 1e-3);
    let l = x.log();
    assume(l.dot(l) > 1e-3);
    (h_out(SO3::exp(l).to_matrix()), h_rot(u))
}
pub fn so3_log_small(x: [f64; 3]) -> ([[f64; 3]; 3], [[f64; 3]; 3]) {
    let e = SO3::<Jet<f64, 3>>::exp(h_line(x)).log();
    ([e[0].coeffs, e[1].coeffs, e[2].coeffs], [[0.0, x[0], 0.0], [0.0, x[1], 0.0], [0.0, x[2], 0.0]])
}
pub fn so3_from_matrix(a: [f64; 4]) -> (M3, M3) {
    let r = h_rot(h_unit(a));
    (h_out(SO3::try_from_matrix(Matrix::new(r)).unwrap().to_matrix()), r)
}
pub fn so3_from_matrix_rejects_reflection(a: [f64; 4]) -> (bool, bool) {
    let r = h_rot(h_unit(a));
    (SO3::try_from_matrix(Matrix::new(h_lin(-1.0, r, 0.0, r))).is_none(), true)
}
pub fn so3_from_matrix_rejects_scale(a: [f64; 4], s: f64) -> (bool, bool) {
    assume(s * s > 1.001);
    let r = h_rot(h_unit(a));
    (SO3::try_from_matrix(Matrix::new(h_lin(s, r, 0.0, r))).is_none(), true)
}
pub fn so3_interpolate_ends(a: [f64; 4], b: [f64; 4]) -> ([M3; 2], [M3; 2]) {
    let (u, v) = (h_unit(a), h_unit(b));
    assume(h_dot(u, v) > 1e-3 && h_dot(u, v) < 0.999);
    let (x, y) = (h_so3(a), h_so3(b));
    ([h_out(x.interpolate(y, 0.0).to_matrix()), h_out(x.interpolate(y, 1.0).to_matrix())], [h_rot(u), h_rot(v)])
}
pub fn so3_normalized(a: [f64; 4]) -> ([f64; 4], [f64; 4]) {
    (h_so3(a).normalized().quaternion().as_array(), h_unit(a))
}
pub fn so3_left_jacobian(x: [f64; 3]) -> (M3, M3) {
    let t2 = h_dot(x, x);
    assume(t2 > 1e-2);
    let t = t2.sqrt();
    let k = h_skew(x);
    (h_out(SO3::left_jacobian(v3(x))), h_lin(1.0, h_id(), 1.0, h_lin((1.0 - t.cos()) / t2, k, (t - t.sin()) / (t2 * t), h_mm(k, k))))
}
pub fn so3_left_jacobian_small(x: [f64; 3]) -> ([M3; 5], [M3; 5]) {
    h_series(SO3::<Jet<f64, 5>>::left_jacobian(h_line(x)).into_array(), h_skew(x), [1.0, 1.0 / 2.0, 1.0 / 6.0, 1.0 / 24.0, 1.0 / 120.0])
}
pub fn so3_left_jacobian_inverse_small(x: [f64; 3]) -> ([M3; 6], [M3; 6]) {
    h_series(SO3::<Jet<f64, 6>>::left_jacobian_inverse(h_line(x)).into_array(), h_skew(x), [1.0, -0.5, 1.0 / 12.0, 0.0, -1.0 / 720.0, 0.0])
}
pub fn so3_right_jacobian(x: [f64; 3]) -> ([M3; 2], [M3; 2]) {
    assume(h_dot(x, x) > 1e-2);
    ([h_out(SO3::right_jacobian(v3(x))), h_out(SO3::right_jacobian_inverse(v3(x)))], [h_t(h_out(SO3::left_jacobian(v3(x)))), h_t(h_out(SO3::left_jacobian_inverse(v3(x))))])
}
pub fn so3_jacobian_inverse(x: [f64; 3]) -> (M3, M3) {
    let t2 = h_dot(x, x);
    assume(t2 > 1e-2);
    assume((t2.sqrt() * 0.5).sin() != 0.0);
    (h_mm(h_out(SO3::left_jacobian(v3(x))), h_out(SO3::left_jacobian_inverse(v3(x)))), h_id())
}
/// noise-free direction pairs give the rotation that maps observed to reference
pub fn so3_from_pairs(a: [f64; 4], l: f64, m: f64, n: f64) -> (M3, M3) {
    let r = h_rot(h_unit(a));
    assume(l > 1e-3 && n > 1e-3);
    let p = [0.0, l, 0.0];
    let s = [0.0, m, n];
    let got = SO3::from_two_direction_pairs(v3(p), v3(s), v3(h_mv(r, p)), v3(h_mv(r, s)));
    (h_out(got.unwrap().to_matrix()), r)
}
pub fn so3_from_parallel_pairs(a: [f64; 3], k: f64) -> (bool, bool) {
    (SO3::from_two_direction_pairs(v3(a), v3([a[0] * k, a[1] * k, a[2] * k]), v3([1.0, 0.0, 0.0]), v3([0.0, 1.0, 0.0])).is_none(), true)
}

pub fn se3_matrix(a: [f64; 4], p: [f64; 3]) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    (h_se3(a, p).to_matrix().into_array(), h_hom(h_rot(h_unit(a)), p))
}
pub fn se3_compose(a: [f64; 4], p: [f64; 3], b: [f64; 4], r: [f64; 3]) -> ([[[f64; 4]; 4]; 2], [[[f64; 4]; 4]; 2]) {
    let (x, y) = (h_se3(a, p), h_se3(b, r));
    let e = h_mm(h_hom(h_rot(h_unit(a)), p), h_hom(h_rot(h_unit(b)), r));
    ([x.compose(y).to_matrix().into_array(), (x * y).to_matrix().into_array()], [e, e])
}
pub fn se3_inverse(a: [f64; 4], p: [f64; 3]) -> ([[[f64; 4]; 4]; 3], [[[f64; 4]; 4]; 3]) {
    let x = h_se3(a, p);
    ([x.compose(x.inverse()).to_matrix().into_array(), x.inverse().compose(x).to_matrix().into_array(), SE3::identity().to_matrix().into_array()], [h_id(); 3])
}
pub fn se3_act(a: [f64; 4], p: [f64; 3], x: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    (*h_se3(a, p).act(v3(x)).as_array(), h_add(h_mv(h_rot(h_unit(a)), x), p))
}
fn h_hat6(x: [f64; 6]) -> [[f64; 4]; 4] {
    let (l, w) = h_split(x);
    let mut o = h_hom(h_skew(w), l);
    o[3][3] = 0.0;
    o
}
pub fn se3_hat(x: [f64; 6]) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    (SE3::hat(Vector::new(x)).into_array(), h_hat6(x))
}
pub fn se3_vee(x: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    (*SE3::vee(SE3::hat(Vector::new(x))).as_array(), x)
}
pub fn se3_adjoint(a: [f64; 4], p: [f64; 3], x: [f64; 6]) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    let g = h_se3(a, p);
    let l = h_mm(h_mm(g.to_matrix().into_array(), h_hat6(x)), g.inverse().to_matrix().into_array());
    (l, h_hat6(*(g.adjoint() * Vector::new(x)).as_array()))
}
/// power is invariant: Ad^T F_Ad = I
pub fn se3_force_adjoint(a: [f64; 4], p: [f64; 3]) -> ([[f64; 6]; 6], [[f64; 6]; 6]) {
    let g = h_se3(a, p);
    (h_mm(h_t(g.adjoint().into_array()), g.force_adjoint().into_array()), h_id())
}
pub fn se3_act_twist(a: [f64; 4], p: [f64; 3], x: [f64; 6]) -> ([[f64; 6]; 2], [[f64; 6]; 2]) {
    let g = h_se3(a, p);
    ([g.act_twist(Twist::from_array(x)).as_array(), g.inverse_act_twist(Twist::from_array(x)).as_array()], [h_mv(g.adjoint().into_array(), x), h_mv(g.inverse().adjoint().into_array(), x)])
}
pub fn se3_act_wrench(a: [f64; 4], p: [f64; 3], x: [f64; 6]) -> ([[f64; 6]; 2], [[f64; 6]; 2]) {
    let g = h_se3(a, p);
    ([g.act_wrench(Wrench::from_array(x)).as_array(), g.inverse_act_wrench(Wrench::from_array(x)).as_array()], [h_mv(g.force_adjoint().into_array(), x), h_mv(g.inverse().force_adjoint().into_array(), x)])
}
fn h_inertia(m: f64, c: [f64; 3], i: [f64; 6]) -> SpatialInertia {
    assume(m > 0.0 && i[0] > 0.0 && i[1] > 0.0 && i[2] > 0.0);
    SpatialInertia::new(m, v3(c), Matrix::new(h_isym(i))).unwrap()
}
fn h_isym(i: [f64; 6]) -> M3 {
    [[i[0], i[3], i[4]], [i[3], i[1], i[5]], [i[4], i[5], i[2]]]
}
/// the moved inertia as a 6x6 matrix is F_Ad I Ad^-1
pub fn se3_act_inertia(a: [f64; 4], p: [f64; 3], m: f64, c: [f64; 3], i: [f64; 6]) -> ([[f64; 6]; 6], [[f64; 6]; 6]) {
    let g = h_se3(a, p);
    let j = h_inertia(m, c, i);
    let e = h_mm(h_mm(g.force_adjoint().into_array(), j.to_matrix().into_array()), g.inverse().adjoint().into_array());
    (g.act_inertia(j).to_matrix().into_array(), e)
}
pub fn se3_inverse_act_inertia(a: [f64; 4], p: [f64; 3], m: f64, c: [f64; 3], i: [f64; 6]) -> ([[f64; 6]; 6], [[f64; 6]; 6]) {
    let g = h_se3(a, p);
    let j = h_inertia(m, c, i);
    (g.act_inertia(g.inverse_act_inertia(j)).to_matrix().into_array(), j.to_matrix().into_array())
}
pub fn se3_exp(x: [f64; 6]) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    let (_, w) = h_split(x);
    let t2 = h_dot(w, w);
    assume(t2 > 1e-2);
    let t = t2.sqrt();
    let k = h_hat6(x);
    let k2 = h_mm(k, k);
    let e = h_lin(1.0, h_lin(1.0, h_id(), 1.0, k), 1.0, h_lin((1.0 - t.cos()) / t2, k2, (t - t.sin()) / (t2 * t), h_mm(k2, k)));
    (SE3::exp(Vector::new(x)).to_matrix().into_array(), e)
}
pub fn se3_exp_small(x: [f64; 6]) -> ([[[f64; 4]; 4]; 4], [[[f64; 4]; 4]; 4]) {
    h_series(SE3::<Jet<f64, 4>>::exp(h_line(x)).to_matrix().into_array(), h_hat6(x), [1.0, 1.0, 0.5, 1.0 / 6.0])
}
pub fn se3_log(a: [f64; 4], p: [f64; 3]) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    let g = h_se3(a, p);
    let u = h_unit(a);
    assume(u[1] * u[1] + u[2] * u[2] + u[3] * u[3] > 1e-2);
    let l = g.log();
    assume(l[3] * l[3] + l[4] * l[4] + l[5] * l[5] > 1e-2);
    (SE3::exp(l).to_matrix().into_array(), h_hom(h_rot(u), p))
}
pub fn se3_log_small(x: [f64; 6]) -> ([[f64; 3]; 6], [[f64; 3]; 6]) {
    let e = SE3::<Jet<f64, 3>>::exp(h_line(x)).log();
    let mut g = [[0.0; 3]; 6];
    let mut w = g;
    for i in 0..6 {
        g[i] = e[i].coeffs;
        w[i] = [0.0, x[i], 0.0];
    }
    (g, w)
}
fn h_ad(x: [f64; 6]) -> [[f64; 6]; 6] {
    let (r, w) = h_split(x);
    let (a, b) = (h_skew(w), h_skew(r));
    let mut o = [[0.0; 6]; 6];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = a[i][j];
            o[i][j + 3] = b[i][j];
            o[i + 3][j + 3] = a[i][j];
        }
    }
    o
}
/// closed form of sum ad^k/(k+1)! (Barfoot)
pub fn se3_left_jacobian(x: [f64; 6]) -> ([[f64; 6]; 6], [[f64; 6]; 6]) {
    let (_, w) = h_split(x);
    let t2 = h_dot(w, w);
    assume(t2 > 0.25);
    let t = t2.sqrt();
    let (s, c) = (t.sin(), t.cos());
    let a = h_ad(x);
    let a2 = h_mm(a, a);
    let a3 = h_mm(a2, a);
    let a4 = h_mm(a2, a2);
    let e = h_lin(
        1.0,
        h_lin(1.0, h_id(), (4.0 - t * s - 4.0 * c) / (2.0 * t2), a),
        1.0,
        h_lin(
            1.0,
            h_lin((4.0 * t - 5.0 * s + t * c) / (2.0 * t2 * t), a2, (2.0 - t * s - 2.0 * c) / (2.0 * t2 * t2), a3),
            (2.0 * t - 3.0 * s + t * c) / (2.0 * t2 * t2 * t),
            a4,
        ),
    );
    (SE3::left_jacobian(Vector::new(x)).into_array(), e)
}
pub fn se3_left_jacobian_small(x: [f64; 6]) -> ([[[f64; 6]; 6]; 5], [[[f64; 6]; 6]; 5]) {
    h_series(SE3::<Jet<f64, 5>>::left_jacobian(h_line(x)).into_array(), h_ad(x), [1.0, 1.0 / 2.0, 1.0 / 6.0, 1.0 / 24.0, 1.0 / 120.0])
}
pub fn se3_left_jacobian_inverse_small(x: [f64; 6]) -> ([[[f64; 6]; 6]; 5], [[[f64; 6]; 6]; 5]) {
    h_series(SE3::<Jet<f64, 5>>::left_jacobian_inverse(h_line(x)).into_array(), h_ad(x), [1.0, -0.5, 1.0 / 12.0, 0.0, -1.0 / 720.0])
}
pub fn se3_jacobian_inverse(x: [f64; 6]) -> ([[f64; 6]; 6], [[f64; 6]; 6]) {
    let (_, w) = h_split(x);
    let t2 = h_dot(w, w);
    assume(t2 > 0.25);
    assume((t2.sqrt() * 0.5).sin() != 0.0);
    (h_mm(SE3::left_jacobian(Vector::new(x)).into_array(), SE3::left_jacobian_inverse(Vector::new(x)).into_array()), h_id())
}
pub fn se3_right_jacobian(x: [f64; 6]) -> ([[[f64; 6]; 6]; 2], [[[f64; 6]; 6]; 2]) {
    let (_, w) = h_split(x);
    assume(h_dot(w, w) > 0.25);
    let mut m = x;
    for i in 0..6 {
        m[i] = -x[i];
    }
    (
        [SE3::right_jacobian(Vector::new(x)).into_array(), SE3::right_jacobian_inverse(Vector::new(x)).into_array()],
        [SE3::left_jacobian(Vector::new(m)).into_array(), SE3::left_jacobian_inverse(Vector::new(m)).into_array()],
    )
}
pub fn se3_from_matrix(a: [f64; 4], p: [f64; 3]) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    let h = h_hom(h_rot(h_unit(a)), p);
    (SE3::try_from_matrix(Matrix::new(h)).unwrap().to_matrix().into_array(), h)
}
pub fn se3_from_matrix_rejects_bottom(a: [f64; 4], p: [f64; 3], e: f64) -> ([bool; 4], [bool; 4]) {
    assume(e > 1e-3);
    let mut o = [false; 4];
    for i in 0..4 {
        let mut h = h_hom(h_rot(h_unit(a)), p);
        h[3][i] += e;
        o[i] = SE3::try_from_matrix(Matrix::new(h)).is_none();
    }
    (o, [true; 4])
}
pub fn se3_interpolate_start(a: [f64; 4], p: [f64; 3], b: [f64; 4], r: [f64; 3]) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    let (x, y) = (h_se3(a, p), h_se3(b, r));
    (x.interpolate(y, 0.0).to_matrix().into_array(), x.to_matrix().into_array())
}
pub fn se3_interpolate(a: [f64; 4], p: [f64; 3], b: [f64; 4], r: [f64; 3], k: f64) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    let (x, y) = (h_se3(a, p), h_se3(b, r));
    let l = x.inverse().compose(y).log();
    (x.interpolate(y, k).to_matrix().into_array(), x.compose(SE3::exp(l * k)).to_matrix().into_array())
}

// ---- twists, wrenches, inertias ----
pub fn twist_vector_space(a: [f64; 6], b: [f64; 6], s: f64) -> ([[f64; 6]; 7], [[f64; 6]; 7]) {
    let (x, y) = (Twist::from_array(a), Twist::from_vector(Vector::new(b)));
    let mut w = [[0.0; 6]; 7];
    for i in 0..6 {
        w[0][i] = a[i] + b[i];
        w[1][i] = a[i] - b[i];
        w[2][i] = -a[i];
        w[3][i] = a[i] * s;
        w[4][i] = b[i];
        w[5][i] = a[i];
    }
    let l = *x.linear().as_array();
    let n = *x.angular().as_array();
    ([(x + y).as_array(), (x - y).as_array(), (-x).as_array(), x.scale(s).as_array(), *y.to_vector().as_array(), h_join(l, n), Twist::<f64>::zeros().as_array()], w)
}
pub fn wrench_vector_space(a: [f64; 6], b: [f64; 6], s: f64) -> ([[f64; 6]; 7], [[f64; 6]; 7]) {
    let (x, y) = (Wrench::from_array(a), Wrench::from_vector(Vector::new(b)));
    let mut w = [[0.0; 6]; 7];
    for i in 0..6 {
        w[0][i] = a[i] + b[i];
        w[1][i] = a[i] - b[i];
        w[2][i] = -a[i];
        w[3][i] = a[i] * s;
        w[4][i] = b[i];
        w[5][i] = a[i];
    }
    let l = *x.force().as_array();
    let n = *x.torque().as_array();
    ([(x + y).as_array(), (x - y).as_array(), (-x).as_array(), x.scale(s).as_array(), *y.to_vector().as_array(), h_join(l, n), Wrench::<f64>::zeros().as_array()], w)
}
pub fn twist_cross(a: [f64; 6], b: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    (Twist::from_array(a).cross(Twist::from_array(b)).as_array(), h_mv(h_ad(a), b))
}
/// the dual of the motion cross product: -ad^T
pub fn twist_cross_wrench(a: [f64; 6], b: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    let e = h_mv(h_t(h_ad(a)), b);
    (Twist::from_array(a).cross_wrench(Wrench::from_array(b)).as_array(), [-e[0], -e[1], -e[2], -e[3], -e[4], -e[5]])
}
pub fn twist_dot_wrench(a: [f64; 6], b: [f64; 6]) -> (f64, f64) {
    (Twist::from_array(a).dot_wrench(Wrench::from_array(b)), h_dot(a, b))
}
pub fn inertia_matrix(m: f64, c: [f64; 3], i: [f64; 6]) -> ([[f64; 6]; 6], [[f64; 6]; 6]) {
    let j = h_inertia(m, c, i);
    let k = h_skew(c);
    let rot = h_lin(1.0, h_isym(i), -m, h_mm(k, k));
    let mut o = [[0.0; 6]; 6];
    for a in 0..3 {
        o[a][a] = m;
        for b in 0..3 {
            o[a][b + 3] = -m * k[a][b];
            o[a + 3][b] = m * k[a][b];
            o[a + 3][b + 3] = rot[a][b];
        }
    }
    (j.to_matrix().into_array(), o)
}
pub fn inertia_momentum(m: f64, c: [f64; 3], i: [f64; 6], v: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    let j = h_inertia(m, c, i);
    (j.momentum(Twist::from_array(v)).as_array(), h_mv(j.to_matrix().into_array(), v))
}
pub fn inertia_energy(m: f64, c: [f64; 3], i: [f64; 6], v: [f64; 6]) -> (f64, f64) {
    let j = h_inertia(m, c, i);
    (j.kinetic_energy(Twist::from_array(v)), 0.5 * h_dot(v, h_mv(j.to_matrix().into_array(), v)))
}
pub fn inertia_bias(m: f64, c: [f64; 3], i: [f64; 6], v: [f64; 6]) -> ([f64; 6], [f64; 6]) {
    let j = h_inertia(m, c, i);
    let e = h_mv(h_t(h_ad(v)), h_mv(j.to_matrix().into_array(), v));
    (j.bias_wrench(Twist::from_array(v)).as_array(), [-e[0], -e[1], -e[2], -e[3], -e[4], -e[5]])
}
pub fn inertia_about(m: f64, c: [f64; 3], i: [f64; 6], p: [f64; 3]) -> (M3, M3) {
    let j = h_inertia(m, c, i);
    let k = h_skew([p[0] - c[0], p[1] - c[1], p[2] - c[2]]);
    (h_out(j.inertia_about(v3(p))), h_lin(1.0, h_isym(i), -m, h_mm(k, k)))
}
/// two bodies welded together
pub fn inertia_combined(m: [f64; 2], c: [[f64; 3]; 2], i: [[f64; 6]; 2]) -> ([[f64; 6]; 6], [[f64; 6]; 6]) {
    let (a, b) = (h_inertia(m[0], c[0], i[0]), h_inertia(m[1], c[1], i[1]));
    (a.combined(b).to_matrix().into_array(), h_lin(1.0, a.to_matrix().into_array(), 1.0, b.to_matrix().into_array()))
}
pub fn inertia_parts(m: f64, c: [f64; 3], d: [f64; 3]) -> ((f64, [f64; 3], M3), (f64, [f64; 3], M3)) {
    assume(m > 0.0 && d[0] > 0.0 && d[1] > 0.0 && d[2] > 0.0);
    let j = SpatialInertia::from_diagonal_inertia(m, v3(c), v3(d)).unwrap();
    ((j.mass(), *j.center_of_mass().as_array(), h_out(j.rotational_inertia())), (m, c, [[d[0], 0.0, 0.0], [0.0, d[1], 0.0], [0.0, 0.0, d[2]]]))
}
pub fn inertia_rejects(m: f64, c: [f64; 3], i: [f64; 6]) -> (bool, bool) {
    (SpatialInertia::new(m, v3(c), Matrix::new(h_isym(i))).is_ok(), m > 0.0 && i[0] > 0.0 && i[1] > 0.0 && i[2] > 0.0)
}
pub fn inertia_rejects_asymmetric(m: f64, c: [f64; 3], e: f64) -> ([bool; 3], [bool; 3]) {
    let i = [1.0, 2.0, 2.5, 0.125, -0.5, 0.25];
    assume(e > 1e-3);
    let mut o = [false; 3];
    for k in 0..3 {
        let mut r = h_isym(i);
        r[k][(k + 1) % 3] += e;
        o[k] = SpatialInertia::new(m, v3(c), Matrix::new(r)).is_ok();
    }
    (o, [false; 3])
}

// ---- free joint ----
pub fn free_joint_vectors(p: [f64; 3], a: [f64; 4], v: [f64; 6]) -> (([f64; 7], [f64; 6]), ([f64; 7], [f64; 6])) {
    let n = h_n2(a).sqrt();
    assume(n > 1e-3);
    let s = FreeJointState::from_generalized_vectors([p[0], p[1], p[2], a[0], a[1], a[2], a[3]], v).unwrap();
    ((s.generalized_position(), s.generalized_velocity()), ([p[0], p[1], p[2], a[0] / n, a[1] / n, a[2] / n, a[3] / n], v))
}
pub fn free_joint_pose(p: [f64; 3], a: [f64; 4], v: [f64; 6]) -> (([[f64; 4]; 4], [f64; 6]), ([[f64; 4]; 4], [f64; 6])) {
    let u = h_unit(a);
    let s = FreeJointState::from_generalized_vectors([p[0], p[1], p[2], u[0], u[1], u[2], u[3]], v).unwrap();
    ((s.pose().to_matrix().into_array(), s.velocity().as_array()), (h_hom(h_rot(u), p), v))
}
pub fn free_joint_round(p: [f64; 3], a: [f64; 4], v: [f64; 6]) -> (([f64; 7], [f64; 6]), ([f64; 7], [f64; 6])) {
    let u = h_unit(a);
    let s = FreeJointState::new(h_se3(a, p), Twist::from_array(v));
    ((s.generalized_position(), s.generalized_velocity()), ([p[0], p[1], p[2], u[0], u[1], u[2], u[3]], v))
}
