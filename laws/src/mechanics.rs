//! Rigid-body motion, joint trees, wheeled bases, rotors and clearances.
use crate::h_assume as assume;
use multicalc::dynamics::*;
use multicalc::error::*;
use multicalc::kinematics::*;
use multicalc::linear_algebra::*;
use multicalc::ode::ExponentialMap;
use multicalc::plant::*;
use multicalc::spatial::*;
use multicalc::{Dual, Jet, Numeric, VectorFn};

type D = Dual<f64>;

fn v3<T: Numeric>(a: [T; 3]) -> Vector<3, T> {
    Vector::new(a)
}
fn h_n2(a: [f64; 4]) -> f64 {
    a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
}
fn h_qmul(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn h_unit(a: [f64; 4]) -> [f64; 4] {
    let n = h_n2(a);
    let s = h_qmul(a, a);
    [s[0] / n, s[1] / n, s[2] / n, s[3] / n]
}
fn h_rot(u: [f64; 4]) -> [[f64; 3]; 3] {
    let [w, x, y, z] = u;
    [
        [w * w + x * x - y * y - z * z, 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]
}
fn h_mv(m: [[f64; 3]; 3], x: [f64; 3]) -> [f64; 3] {
    let mut o = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i] += m[i][j] * x[j];
        }
    }
    o
}
fn h_tv(m: [[f64; 3]; 3], x: [f64; 3]) -> [f64; 3] {
    let mut o = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i] += m[j][i] * x[j];
        }
    }
    o
}
fn h_cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn h_add(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn h_sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn h_sc(s: f64, a: [f64; 3]) -> [f64; 3] {
    [s * a[0], s * a[1], s * a[2]]
}
fn h_pose<T: Numeric>(u: [f64; 4], t: [f64; 3]) -> SE3<T> {
    let q = Quaternion::new(T::from_f64(u[0]), T::from_f64(u[1]), T::from_f64(u[2]), T::from_f64(u[3]));
    SE3::from_parts(SO3::from_quaternion(q), h_v(t))
}
fn h_v<T: Numeric>(t: [f64; 3]) -> Vector<3, T> {
    Vector::new([T::from_f64(t[0]), T::from_f64(t[1]), T::from_f64(t[2])])
}
fn h_isym(i: [f64; 6]) -> [[f64; 3]; 3] {
    [[i[0], i[3], i[4]], [i[3], i[1], i[5]], [i[4], i[5], i[2]]]
}

// ---- rigid body ----
fn h_body(m: f64, c: [f64; 3], i: [[f64; 3]; 3], g: [f64; 3]) -> RigidBody {
    RigidBody::new(SpatialInertia::new(m, v3(c), Matrix::new(i)).unwrap(), v3(g)).unwrap()
}
fn h_diag(d: [f64; 3]) -> [[f64; 3]; 3] {
    [[d[0], 0.0, 0.0], [0.0, d[1], 0.0], [0.0, 0.0, d[2]]]
}
/// Newton and Euler: the balance point obeys force = mass x acceleration, the turn obeys torque = d(angular momentum)/dt
fn h_newton_euler(m: f64, c: [f64; 3], i: [[f64; 3]; 3], g: [f64; 3], a: [f64; 4], w: [f64; 3], f: [f64; 3], t: [f64; 3]) -> ([[f64; 3]; 2], [[f64; 3]; 2]) {
    let b = h_body(m, c, i, g);
    let u = h_unit(a);
    let r = h_rot(u);
    let o = b.accelerations(h_pose(u, [0.0; 3]).rotation(), v3(w), Wrench::new(v3(f), v3(t)));
    let (lin, ang) = (*o.linear().as_array(), *o.angular().as_array());
    let swing = h_add(h_cross(ang, c), h_cross(w, h_cross(w, c)));
    let com = h_add(lin, h_mv(r, swing));
    let lhs = h_sub(h_sc(m, com), h_sc(m, g));
    let euler = h_add(h_mv(i, ang), h_cross(w, h_mv(i, w)));
    ([lhs, euler], [h_mv(r, f), h_sub(t, h_cross(c, f))])
}
pub fn rb_newton_euler_diagonal(m: f64, c: [f64; 3], d: [f64; 3], g: [f64; 3], a: [f64; 4], w: [f64; 3], f: [f64; 3], t: [f64; 3]) -> ([[f64; 3]; 2], [[f64; 3]; 2]) {
    assume(m > 0.0 && d[0] > 1e-2 && d[1] > 1e-2 && d[2] > 1e-2);
    h_newton_euler(m, c, h_diag(d), g, a, w, f, t)
}
pub fn rb_newton_euler_full(m: f64, c: [f64; 3], i: [f64; 6], g: [f64; 3], a: [f64; 4], w: [f64; 3], f: [f64; 3], t: [f64; 3]) -> ([[f64; 3]; 2], [[f64; 3]; 2]) {
    assume(m > 0.0 && i[0] > 1e-2 && i[1] > 1e-2 && i[2] > 1e-2);
    h_newton_euler(m, c, h_isym(i), g, a, w, f, t)
}
pub fn rb_parts(m: f64, c: [f64; 3], d: [f64; 3], g: [f64; 3]) -> ((f64, [f64; 3], [f64; 3]), (f64, [f64; 3], [f64; 3])) {
    assume(m > 0.0 && d[0] > 1e-2 && d[1] > 1e-2 && d[2] > 1e-2);
    let b = h_body(m, c, h_diag(d), g);
    ((b.inertia().mass(), *b.inertia().center_of_mass().as_array(), *b.gravity().as_array()), (m, c, g))
}
pub fn rb_state_vector(p: [f64; 3], a: [f64; 4], v: [f64; 6]) -> ([f64; 13], [f64; 13]) {
    let u = h_unit(a);
    let s = FreeJointState::new(h_pose(u, p), Twist::from_array(v));
    (*state_vector_from_free_joint(s).as_array(), [p[0], p[1], p[2], u[0], u[1], u[2], u[3], v[0], v[1], v[2], v[3], v[4], v[5]])
}
pub fn rb_state_vector_round(p: [f64; 3], a: [f64; 4], v: [f64; 6]) -> ([f64; 13], [f64; 13]) {
    let u = h_unit(a);
    let x = [p[0], p[1], p[2], u[0], u[1], u[2], u[3], v[0], v[1], v[2], v[3], v[4], v[5]];
    (*state_vector_from_free_joint(free_joint_from_state_vector(&Vector::new(x)).unwrap()).as_array(), x)
}
/// positions change with the velocity, the quaternion with half of itself times the rate, the rest by Newton-Euler
pub fn rb_state_derivative(m: f64, c: [f64; 3], d: [f64; 3], g: [f64; 3], p: [f64; 3], a: [f64; 4], v: [f64; 3], w: [f64; 3], k: [f64; 6]) -> ([f64; 13], [f64; 13]) {
    assume(m > 0.0 && d[0] > 1e-2 && d[1] > 1e-2 && d[2] > 1e-2);
    let b = h_body(m, c, h_diag(d), g);
    let u = h_unit(a);
    let o = b.accelerations(h_pose(u, [0.0; 3]).rotation(), v3(w), Wrench::from_array(k));
    let x = [p[0], p[1], p[2], u[0], u[1], u[2], u[3], v[0], v[1], v[2], w[0], w[1], w[2]];
    let dx = b.state_derivative(&Vector::new(x), Wrench::from_array(k));
    let h = h_qmul(u, [0.0, w[0], w[1], w[2]]);
    let (l, n) = (*o.linear().as_array(), *o.angular().as_array());
    (*dx.as_array(), [v[0], v[1], v[2], h[0] / 2.0, h[1] / 2.0, h[2] / 2.0, h[3] / 2.0, l[0], l[1], l[2], n[0], n[1], n[2]])
}
/// the rate of a drifted quaternion keeps the drift: d|q|^2/dt = 0
pub fn rb_derivative_keeps_norm(d: [f64; 3], q: [f64; 4], w: [f64; 3]) -> (f64, f64) {
    assume(d[0] > 1e-2 && d[1] > 1e-2 && d[2] > 1e-2 && h_n2(q) > 1e-2);
    let b = h_body(1.0, [0.0; 3], h_diag(d), [0.0; 3]);
    let x = b.state_derivative(&Vector::new([0.0, 0.0, 0.0, q[0], q[1], q[2], q[3], 0.0, 0.0, 0.0, w[0], w[1], w[2]]), Wrench::zeros());
    (x[3] * q[0] + x[4] * q[1] + x[5] * q[2] + x[6] * q[3], 0.0)
}
/// one step agrees with the solution of the motion law to second order in the timestep
fn h_step<const K: usize>(c: [f64; 3], d: [f64; 3], g: [f64; 3], u: [f64; 4], v: [f64; 3], w: [f64; 3], k: [f64; 6]) -> ([[f64; 3]; K], [[f64; 3]; K], [[f64; 3]; K]) {
    let x = [0.5, -1.0, 2.0, u[0], u[1], u[2], u[3], v[0], v[1], v[2], w[0], w[1], w[2]];
    let b = h_body(2.0, c, h_diag(d), g);
    let f = *b.state_derivative(&Vector::new(x), Wrench::from_array(k)).as_array();
    // second derivative: the motion law differentiated along itself
    let bd = RigidBody::new(
        SpatialInertia::new(D::from_f64(2.0), h_v(c), Matrix::from_fn(|i, j| D::from_f64(if i == j { d[i] } else { 0.0 }))).unwrap(),
        h_v(g),
    )
    .unwrap();
    let mut xd = [D::ZERO; 13];
    for i in 0..13 {
        xd[i] = D::new(x[i], f[i]);
    }
    let mut kd = [D::ZERO; 6];
    for i in 0..6 {
        kd[i] = D::from_f64(k[i]);
    }
    let fd = *bd.state_derivative(&Vector::new(xd), Wrench::from_array(kd)).as_array();
    // the step as a series in the timestep
    type J = Jet<f64, 3>;
    let bj = RigidBody::new(
        SpatialInertia::new(J::from_f64(2.0), h_v(c), Matrix::from_fn(|i, j| J::from_f64(if i == j { d[i] } else { 0.0 }))).unwrap(),
        h_v(g),
    )
    .unwrap();
    let mut tw = [J::ZERO; 6];
    let mut kj = [J::ZERO; 6];
    for i in 0..6 {
        tw[i] = J::from_f64(x[7 + i]);
        kj[i] = J::from_f64(k[i]);
    }
    let s = bj.stepped(FreeJointState::new(h_pose(u, [x[0], x[1], x[2]]), Twist::from_array(tw)), Wrench::from_array(kj), J::new([0.0, 1.0, 0.0]));
    let y = *state_vector_from_free_joint(s).as_array();
    let mut a = [[0.0; 3]; K];
    let mut e = [[0.0; 3]; K];
    let mut z = [[0.0; 3]; K];
    for i in 0..13 {
        let (r, q) = ([x[i], f[i], fd[i].deriv / 2.0], y[i].coeffs);
        if i < K {
            a[i] = q;
            e[i] = r;
        } else if i - K < K {
            z[i - K] = h_sub(q, r);
        }
    }
    (a, e, z)
}
pub fn rb_step_second_order(c: [f64; 3], d: [f64; 3], g: [f64; 3], a: [f64; 4], v: [f64; 3], w: [f64; 3], k: [f64; 6]) -> ([[f64; 3]; 13], [[f64; 3]; 13]) {
    assume(d[0] > 1e-2 && d[1] > 1e-2 && d[2] > 1e-2);
    let (y, e, _) = h_step::<13>(c, d, g, h_unit(a), v, w, k);
    (y, e)
}
pub fn rb_step_midpoint(d: [f64; 3], g: [f64; 3], a: [f64; 4], p: [f64; 3], v: [f64; 3], w: [f64; 3], k: [f64; 6], h: f64) -> ([[f64; 3]; 3], [[f64; 3]; 3]) {
    assume(d[0] > 1e-2 && d[1] > 1e-2 && d[2] > 1e-2);
    let b = h_body(2.0, [0.0; 3], h_diag(d), g);
    let at = h_pose(h_unit(a), p);
    let s = b.stepped(FreeJointState::new(at, Twist::new(v3(v), v3(w))), Wrench::from_array(k), h);
    let a0 = b.accelerations(at.rotation(), v3(w), Wrench::from_array(k));
    let wm = v3(w) + a0.angular() * (h / 2.0);
    let vm = v3(v) + a0.linear() * (h / 2.0);
    let mid = ExponentialMap::attitude_step(at.rotation(), v3(w), h / 2.0);
    let a1 = b.accelerations(mid, wm, Wrench::from_array(k));
    (
        [*s.pose().translation().as_array(), *s.velocity().linear().as_array(), *s.velocity().angular().as_array()],
        [*(v3(p) + vm * h).as_array(), *(v3(v) + a1.linear() * h).as_array(), *(v3(w) + a1.angular() * h).as_array()],
    )
}
pub fn rb_rejects(d: [f64; 3]) -> (bool, bool) {
    assume(d[0] > 1e-2 && d[2] > 1e-2);
    // inertia with a non-positive principal moment is refused
    let i = SpatialInertia::new(1.0, v3([0.0; 3]), Matrix::new([[d[0], 0.0, 0.0], [0.0, 1.0, d[1]], [0.0, d[1], d[2]]]));
    assume(i.is_ok());
    assume(d[2] - d[1] * d[1] < -1e-2);
    (RigidBody::new(i.unwrap(), v3([0.0; 3])).is_err(), true)
}

// ---- joint trees ----
/// x is not near zero; squaring it lets the numbering recognise the root of a square
fn h_away(x: f64) -> bool {
    x * x > 0.01
}
#[derive(Clone, Copy)]
struct Spec {
    axis: [f64; 3],
    anchor: [f64; 3],
    at: ([f64; 4], [f64; 3]),
    zero: f64,
}
fn h_joint<T: Numeric>(kind: JointKind, s: Spec) -> Joint<T> {
    let o = h_pose(s.at.0, s.at.1);
    let a = h_v(s.axis);
    match kind {
        JointKind::Revolute => Joint::revolute(a, o),
        JointKind::Continuous => Joint::continuous(a, o),
        JointKind::Prismatic => Joint::prismatic(a, o),
        JointKind::Fixed => Joint::fixed(o),
        JointKind::Floating => Joint::floating(o),
    }
    .with_anchor(h_v(s.anchor))
    .with_zero_offset(T::from_f64(s.zero))
}
fn h_spec(a: [f64; 4], axis: [f64; 4], rest: [f64; 7]) -> Spec {
    let r = h_rot(h_unit(axis));
    Spec {
        axis: [r[0][2], r[1][2], r[2][2]],
        anchor: [rest[0], rest[1], rest[2]],
        at: (h_unit(a), [rest[3], rest[4], rest[5]]),
        zero: rest[6],
    }
}
type M4 = ([[f64; 3]; 3], [f64; 3]);
fn h_comp(a: M4, b: M4) -> M4 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                r[i][j] += a.0[i][k] * b.0[k][j];
            }
        }
    }
    (r, h_add(h_mv(a.0, b.1), a.1))
}
fn h_turn(n: [f64; 3], t: f64) -> [[f64; 3]; 3] {
    let (s, c) = (t.sin(), t.cos());
    let mut o = [[0.0, -s * n[2], s * n[1]], [s * n[2], 0.0, -s * n[0]], [-s * n[1], s * n[0], 0.0]];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] += (1.0 - c) * n[i] * n[j];
        }
        o[i][i] += c;
    }
    o
}
/// what a joint of this kind does to its mount at reading q
fn h_motion(kind: JointKind, s: Spec, q: f64) -> M4 {
    let id = h_diag([1.0; 3]);
    match kind {
        JointKind::Revolute | JointKind::Continuous => {
            let r = h_turn(s.axis, q - s.zero);
            (r, h_sub(s.anchor, h_mv(r, s.anchor)))
        }
        JointKind::Prismatic => (id, h_sc(q - s.zero, s.axis)),
        _ => (id, [0.0; 3]),
    }
}
fn h_out(p: SE3) -> M4 {
    (p.rotation().to_matrix().into_array(), *p.translation().as_array())
}
fn h_fk(kinds: [JointKind; 2], s: [Spec; 2], q: [f64; 2]) -> ([M4; 2], [M4; 2]) {
    let t = KinematicTree::<2, 2>::try_from_joints(&[h_joint(kinds[0], s[0]), h_joint(kinds[1], s[1])], &[JointParent::World, JointParent::Joint(0)]).unwrap();
    let f = t.forward_kinematics(&Vector::new(q)).unwrap();
    let p0 = h_comp((h_rot(s[0].at.0), s[0].at.1), h_motion(kinds[0], s[0], q[0]));
    let p1 = h_comp(h_comp(p0, (h_rot(s[1].at.0), s[1].at.1)), h_motion(kinds[1], s[1], q[1]));
    ([h_out(f.pose(0).unwrap()), h_out(f.pose(1).unwrap())], [p0, p1])
}
macro_rules! fk_laws { ($($m:ident $a:ident $b:ident),*) => { $(
    pub fn $m(a: [[f64; 4]; 2], x: [[f64; 4]; 2], r: [[f64; 7]; 2], q: [f64; 2]) -> ([M4; 2], [M4; 2]) {
        assume(h_away(q[0] - r[0][6]) && h_away(q[1] - r[1][6]));
        h_fk([JointKind::$a, JointKind::$b], [h_spec(a[0], x[0], r[0]), h_spec(a[1], x[1], r[1])], q)
    }
)* } }
fk_laws!(fk_revolute_prismatic Revolute Prismatic, fk_prismatic_continuous Prismatic Continuous, fk_fixed_revolute Fixed Revolute, fk_continuous_fixed Continuous Fixed);
/// an axis of any length is stored as its direction
pub fn joint_axis_unit(x: [f64; 4], l: f64, q: f64) -> (M4, M4) {
    assume(l > 1e-2 && q > 0.1);
    let s = h_spec([1.0, 0.0, 0.0, 0.0], x, [0.0; 7]);
    let mut t = KinematicTree::<1, 1>::new();
    t.push(Joint::prismatic(v3(h_sc(l, s.axis)), SE3::identity()), JointParent::World).unwrap();
    (h_out(t.forward_kinematics(&Vector::new([q])).unwrap().pose(0).unwrap()), (h_diag([1.0; 3]), h_sc(q, s.axis)))
}
/// poses of a branching tree hang off their own parent
pub fn fk_branches(r: [[f64; 7]; 4], x: [[f64; 4]; 4], q: [f64; 4]) -> ([M4; 4], [M4; 4]) {
    let u = [1.0, 0.0, 0.0, 0.0];
    let k = JointKind::Prismatic;
    let s = [h_spec(u, x[0], r[0]), h_spec(x[3], x[1], r[1]), h_spec(x[0], x[2], r[2]), h_spec(u, x[3], r[3])];
    let p = [JointParent::World, JointParent::Joint(0), JointParent::Joint(0), JointParent::World];
    let t = KinematicTree::<5, 6>::try_from_joints(&[h_joint(k, s[0]), h_joint(k, s[1]), h_joint(k, s[2]), h_joint(k, s[3])], &p).unwrap();
    let f = t.forward_kinematics(&Vector::new([q[0], q[1], q[2], q[3], 0.0, 0.0])).unwrap();
    let m = |i: usize| h_comp((h_rot(s[i].at.0), s[i].at.1), h_motion(k, s[i], q[i]));
    let p0 = m(0);
    (
        [h_out(f.pose(0).unwrap()), h_out(f.pose(1).unwrap()), h_out(f.pose(2).unwrap()), h_out(f.pose(3).unwrap())],
        [p0, h_comp(p0, m(1)), h_comp(p0, m(2)), m(3)],
    )
}
fn h_float(u: [f64; 4], p: [f64; 3], s: Spec, kind: JointKind, f: Spec, q: f64) -> (M4, M4) {
    let t = KinematicTree::<2, 8>::try_from_joints(&[h_joint(JointKind::Floating, f), h_joint(kind, s)], &[JointParent::World, JointParent::Joint(0)]).unwrap();
    let c = Vector::new([p[0], p[1], p[2], u[0], u[1], u[2], u[3], q]);
    let p0 = h_comp((h_rot(f.at.0), f.at.1), (h_rot(u), p));
    (h_out(t.forward_kinematics(&c).unwrap().pose(1).unwrap()), h_comp(h_comp(p0, (h_rot(s.at.0), s.at.1)), h_motion(kind, s, q)))
}
pub fn fk_floating(b: [f64; 4], p: [f64; 3], a: [[f64; 4]; 2], x: [f64; 4], r: [[f64; 7]; 2], q: f64) -> (M4, M4) {
    assume(h_away(q - r[1][6]));
    h_float(h_unit(b), p, h_spec(a[1], x, r[1]), JointKind::Revolute, h_spec(a[0], x, r[0]), q)
}
/// d/dt of a pose along rates, read as [velocity of the origin; turn rate], in world axes
fn h_rates(p: SE3<D>) -> [f64; 6] {
    let t = *p.translation().as_array();
    let m = p.rotation().to_matrix();
    let mut s = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                s[i][j] += m[(i, k)].deriv * m[(j, k)].value;
            }
        }
    }
    [t[0].deriv, t[1].deriv, t[2].deriv, s[2][1], s[0][2], s[1][0]]
}
fn h_jac(kinds: [JointKind; 3], s: [Spec; 3], q: [f64; 3], dq: [f64; 3], tool: usize) -> ([[f64; 6]; 2], [[f64; 6]; 2]) {
    let par = [JointParent::World, JointParent::Joint(0), JointParent::Joint(1)];
    let t = KinematicTree::<3, 3>::try_from_joints(&[h_joint(kinds[0], s[0]), h_joint(kinds[1], s[1]), h_joint(kinds[2], s[2])], &par).unwrap();
    let td = KinematicTree::<3, 3, D>::try_from_joints(&[h_joint(kinds[0], s[0]), h_joint(kinds[1], s[1]), h_joint(kinds[2], s[2])], &par).unwrap();
    let qd = Vector::new([D::new(q[0], dq[0]), D::new(q[1], dq[1]), D::new(q[2], dq[2])]);
    let p = td.forward_kinematics(&qd).unwrap().pose(tool).unwrap();
    let e = h_rates(p);
    let c = Vector::new(q);
    let w = t.geometric_jacobian_at(&c, tool, JacobianFrame::World).unwrap().tool_twist(&Vector::new(dq)).as_array();
    let f = t.forward_kinematics(&c).unwrap();
    let b = t.geometric_jacobian(&f, tool, JacobianFrame::Body).unwrap().tool_twist(&Vector::new(dq)).as_array();
    let r = f.pose(tool).unwrap().rotation().to_matrix().into_array();
    let (l, n) = (h_tv(r, [e[0], e[1], e[2]]), h_tv(r, [e[3], e[4], e[5]]));
    ([w, b], [e, [l[0], l[1], l[2], n[0], n[1], n[2]]])
}
macro_rules! jac_laws { ($($m:ident $a:ident $b:ident $c:ident $t:literal),*) => { $(
    /// the Jacobian times the joint rates is the rate of change of the forward kinematics
    pub fn $m(a: [f64; 4], x: [[f64; 4]; 2], r: [[f64; 7]; 3], q: [f64; 3], dq: [f64; 3]) -> ([[f64; 6]; 2], [[f64; 6]; 2]) {
        assume(h_away(q[0] - r[0][6]) && h_away(q[1] - r[1][6]) && h_away(q[2] - r[2][6]));
        let k = [0.5, -0.5, 0.5, 0.5];
        h_jac([JointKind::$a, JointKind::$b, JointKind::$c], [h_spec(k, x[0], r[0]), h_spec(a, x[1], r[1]), h_spec(k, k, r[2])], q, dq, $t)
    }
)* } }
jac_laws!(jac_revolute_prismatic Revolute Prismatic Revolute 1, jac_prismatic_continuous Prismatic Continuous Prismatic 2, jac_revolute_revolute Revolute Revolute Fixed 2, jac_fixed_continuous Fixed Continuous Continuous 2);
/// near a zero displacement too
pub fn jac_at_zero(a: [f64; 4], x: [[f64; 4]; 2], r: [[f64; 7]; 2], dq: [f64; 3]) -> ([[f64; 6]; 2], [[f64; 6]; 2]) {
    let k = [0.5, -0.5, 0.5, 0.5];
    let s = [h_spec(k, x[0], r[0]), h_spec(a, x[1], r[1]), h_spec(k, k, r[1])];
    h_jac([JointKind::Revolute, JointKind::Continuous, JointKind::Fixed], s, [r[0][6], r[1][6], 0.0], dq, 2)
}
/// columns of joints the tool does not hang off are zero; a sibling branch does not matter
pub fn jac_branches(x: [[f64; 4]; 3], r: [[f64; 7]; 3], q: [f64; 3]) -> ([[f64; 6]; 3], [[f64; 6]; 3]) {
    assume(q[0] - r[0][6] > 0.1 && q[1] - r[1][6] > 0.1 && q[2] - r[2][6] > 0.1);
    let u = [1.0, 0.0, 0.0, 0.0];
    let s = [h_spec(u, x[0], r[0]), h_spec(u, x[1], r[1]), h_spec(u, x[2], r[2])];
    let k = JointKind::Prismatic;
    let t = KinematicTree::<3, 3>::try_from_joints(&[h_joint(k, s[0]), h_joint(k, s[1]), h_joint(k, s[2])], &[JointParent::World, JointParent::Joint(0), JointParent::Joint(0)]).unwrap();
    let j = t.geometric_jacobian_at(&Vector::new(q), 2, JacobianFrame::World).unwrap();
    let z = |a: [f64; 3]| [a[0], a[1], a[2], 0.0, 0.0, 0.0];
    ([j.column(0).unwrap().as_array(), j.column(1).unwrap().as_array(), j.column(2).unwrap().as_array()], [z(s[0].axis), [0.0; 6], z(s[2].axis)])
}
/// with a floating base: rates are the velocity in its mount and the turn rate in its own axes
fn h_jac_float(f: Spec, s: Spec, kind: JointKind, u: [f64; 4], p: [f64; 3], q: f64, v: [f64; 3], w: [f64; 3], dq: f64) -> ([[f64; 6]; 2], [[f64; 6]; 2]) {
    let par = [JointParent::World, JointParent::Joint(0)];
    let t = KinematicTree::<2, 8>::try_from_joints(&[h_joint(JointKind::Floating, f), h_joint(kind, s)], &par).unwrap();
    let td = KinematicTree::<2, 8, D>::try_from_joints(&[h_joint(JointKind::Floating, f), h_joint(kind, s)], &par).unwrap();
    let du = h_qmul(u, [0.0, w[0] / 2.0, w[1] / 2.0, w[2] / 2.0]);
    let mut c = [0.0; 8];
    let mut cd = [D::ZERO; 8];
    for i in 0..3 {
        c[i] = p[i];
        cd[i] = D::new(p[i], v[i]);
    }
    for i in 0..4 {
        c[3 + i] = u[i];
        cd[3 + i] = D::new(u[i], du[i]);
    }
    c[7] = q;
    cd[7] = D::new(q, dq);
    let e = h_rates(td.forward_kinematics(&Vector::new(cd)).unwrap().pose(1).unwrap());
    let rates = Vector::new([v[0], v[1], v[2], w[0], w[1], w[2], dq, 7.0]);
    let fk = t.forward_kinematics(&Vector::new(c)).unwrap();
    let o = t.geometric_jacobian(&fk, 1, JacobianFrame::World).unwrap().tool_twist(&rates).as_array();
    let b = t.geometric_jacobian(&fk, 1, JacobianFrame::Body).unwrap().tool_twist(&rates).as_array();
    let r = fk.pose(1).unwrap().rotation().to_matrix().into_array();
    let (l, n) = (h_tv(r, [e[0], e[1], e[2]]), h_tv(r, [e[3], e[4], e[5]]));
    ([o, b], [e, [l[0], l[1], l[2], n[0], n[1], n[2]]])
}
pub fn jac_floating_prismatic(a: [[f64; 4]; 2], x: [f64; 4], r: [[f64; 7]; 2], b: [f64; 4], p: [f64; 3], q: f64, v: [f64; 3], w: [f64; 3], dq: f64) -> ([[f64; 6]; 2], [[f64; 6]; 2]) {
    h_jac_float(h_spec(a[0], x, r[0]), h_spec(a[1], x, r[1]), JointKind::Prismatic, h_unit(b), p, q, v, w, dq)
}
pub fn jac_floating_revolute(a: [[f64; 4]; 2], x: [f64; 4], r: [[f64; 7]; 2], b: [f64; 4], p: [f64; 3], q: f64, v: [f64; 3], w: [f64; 3], dq: f64) -> ([[f64; 6]; 2], [[f64; 6]; 2]) {
    assume(h_away(q - r[1][6]));
    h_jac_float(h_spec(a[0], x, r[0]), h_spec(a[1], x, r[1]), JointKind::Revolute, h_unit(b), p, q, v, w, dq)
}
/// slots: a floating base takes seven readings and six rates
fn h_slots(n: usize) -> ([usize; 8], [usize; 8]) {
    let z = v3([0.0, 0.0, 1.0]);
    let j = Joint::<f64>::revolute(z, SE3::identity());
    let f = KinematicTree::<3, 9>::try_from_joints(&[Joint::floating(SE3::identity()), j, j], &[JointParent::World, JointParent::Joint(0), JointParent::Joint(1)]).unwrap();
    let g = KinematicTree::<3, 9>::try_from_joints(&[j, j, j], &[JointParent::World, JointParent::Joint(0), JointParent::Joint(1)]).unwrap();
    let (a, b) = if n == 0 { (0, 0) } else { (n + 6, n + 5) };
    (
        [f.config_offset(n).unwrap(), f.velocity_offset(n).unwrap(), g.config_offset(n).unwrap(), g.velocity_offset(n).unwrap(), f.config_len(), f.velocity_len(), g.config_len(), g.velocity_len()],
        [a, b, n, n, 9, 8, 3, 3],
    )
}
pub fn tree_slots() -> ([[usize; 8]; 3], [[usize; 8]; 3]) {
    let (a, b, c) = (h_slots(0), h_slots(1), h_slots(2));
    ([a.0, b.0, c.0], [a.1, b.1, c.1])
}
pub fn tree_accessors(x: [f64; 4], r: [f64; 7], k: [f64; 5]) -> (([f64; 11], bool), ([f64; 11], bool)) {
    assume(k[0] < k[1]);
    let s = h_spec([1.0, 0.0, 0.0, 0.0], x, r);
    let j = h_joint::<f64>(JointKind::Revolute, s).with_limits(k[0], k[1]).with_armature(k[2]).with_damping(k[3]).with_friction_loss(k[4]);
    let t = KinematicTree::<2, 2>::try_from_joints(&[j], &[JointParent::World]).unwrap();
    let g = t.joint(0).unwrap();
    let (a, c, l) = (*g.axis().as_array(), *g.anchor().as_array(), g.limits().unwrap());
    let ok = t.joint(1).is_none() && t.parent(0) == Some(JointParent::World) && t.len() == 1 && t.config_offset(1).is_none() && !t.has_floating_base();
    (([a[0], a[1], a[2], c[0], c[1], c[2], g.zero_offset(), l.0, l.1, g.armature(), g.damping() + g.friction_loss()], ok), ([s.axis[0], s.axis[1], s.axis[2], r[0], r[1], r[2], r[6], k[0], k[1], k[2], k[3] + k[4]], true))
}
/// what a tree refuses
pub fn tree_refuses(lo: f64, hi: f64) -> ([Option<KinematicsError>; 9], [Option<KinematicsError>; 9]) {
    let z = v3([0.0, 0.0, 1.0]);
    let j = Joint::<f64>::revolute(z, SE3::identity());
    let fl = Joint::<f64>::floating(SE3::identity());
    let w = JointParent::World;
    let one = |x: Joint<f64>| KinematicTree::<2, 8>::try_from_joints(&[x], &[w]).err();
    assume(lo > hi);
    (
        [
            KinematicTree::<2, 8>::try_from_joints(&[j, j], &[w]).err(),
            KinematicTree::<2, 8>::try_from_joints(&[j, j, j], &[w, w, w]).err(),
            KinematicTree::<2, 8>::try_from_joints(&[j, j], &[w, JointParent::Joint(1)]).err(),
            KinematicTree::<2, 8>::try_from_joints(&[j, fl], &[w, w]).err(),
            KinematicTree::<2, 6>::try_from_joints(&[fl], &[w]).err(),
            one(Joint::prismatic(v3([0.0; 3]), SE3::identity())),
            one(j.with_limits(lo, hi)),
            one(Joint::continuous(z, SE3::identity()).with_limits(0.0, 1.0)),
            one(j.with_zero_offset(f64::INFINITY)),
        ],
        [
            Some(KinematicsError::JointCountMismatch),
            Some(KinematicsError::CapacityExceeded),
            Some(KinematicsError::ParentOutOfOrder),
            Some(KinematicsError::FloatingJointNotAtRoot),
            Some(KinematicsError::ConfigurationCapacityExceeded),
            Some(KinematicsError::AxisHasNoDirection),
            Some(KinematicsError::LimitsReversed),
            Some(KinematicsError::ContinuousJointHasLimits),
            Some(KinematicsError::NonFinite),
        ],
    )
}
pub fn tree_refuses_states(q: f64) -> ([Option<KinematicsError>; 4], [Option<KinematicsError>; 4]) {
    let j = Joint::<f64>::prismatic(v3([0.0, 0.0, 1.0]), SE3::identity());
    let t = KinematicTree::<2, 8>::try_from_joints(&[j], &[JointParent::World]).unwrap();
    let two = KinematicTree::<2, 8>::try_from_joints(&[j, j], &[JointParent::World, JointParent::World]).unwrap();
    let f = KinematicTree::<2, 8>::try_from_joints(&[Joint::floating(SE3::identity())], &[JointParent::World]).unwrap();
    let mut c = [0.0; 8];
    let s = two.forward_kinematics(&Vector::new(c)).unwrap();
    let zero = f.forward_kinematics(&Vector::new(c)).err();
    c[0] = q;
    let ok = t.forward_kinematics(&Vector::new(c)).unwrap();
    c[0] = f64::NAN;
    (
        [t.forward_kinematics(&Vector::new(c)).err(), t.geometric_jacobian(&ok, 1, JacobianFrame::World).err(), t.geometric_jacobian(&s, 0, JacobianFrame::World).err(), zero],
        [Some(KinematicsError::NonFinite), Some(KinematicsError::ToolIndexOutOfRange), Some(KinematicsError::StateShapeMismatch), Some(KinematicsError::OrientationHasNoDirection)],
    )
}
pub fn tree_distance(x: [f64; 3], y: [f64; 3]) -> (f64, f64) {
    let z = v3([0.0, 0.0, 1.0]);
    let w = JointParent::World;
    let o = SE3::identity();
    let t = KinematicTree::<4, 4>::try_from_joints(&[Joint::revolute(z, o), Joint::fixed(o), Joint::continuous(z, o), Joint::prismatic(z, o)], &[w, w, w, w]).unwrap();
    let d = t.configuration_distance(&Vector::new([x[0], 5.0, x[1], x[2]]), &Vector::new([y[0], 1.0, y[1], y[2]]));
    let c = (x[1] - y[1]).wrap_to_pi();
    (d * d, (x[0] - y[0]) * (x[0] - y[0]) + c * c + (x[2] - y[2]) * (x[2] - y[2]))
}
pub fn tree_distance_floating(p: [f64; 3], a: [f64; 4], b: [f64; 4], q: [f64; 2]) -> (f64, f64) {
    let z = v3([0.0, 0.0, 1.0]);
    let w = JointParent::World;
    let o = SE3::identity();
    let t = KinematicTree::<2, 8>::try_from_joints(&[Joint::floating(o), Joint::prismatic(z, o)], &[w, JointParent::Joint(0)]).unwrap();
    let (u, v) = (h_unit(a), h_unit(b));
    let d = t.configuration_distance(&Vector::new([p[0], p[1], p[2], u[0], u[1], u[2], u[3], q[0]]), &Vector::new([1.0, 2.0, 3.0, v[0], v[1], v[2], v[3], q[1]]));
    let l = (h_pose::<f64>(u, [0.0; 3]).rotation().inverse() * h_pose::<f64>(v, [0.0; 3]).rotation()).log();
    let e = h_sub(p, [1.0, 2.0, 3.0]);
    (d * d, e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + l.dot(l) + (q[0] - q[1]) * (q[0] - q[1]))
}
pub fn jac_damping_weights(x: [f64; 4], r: [f64; 7], q: f64) -> ((bool, bool, usize), (bool, bool, usize)) {
    let s = h_spec([1.0, 0.0, 0.0, 0.0], x, r);
    let t = KinematicTree::<1, 2>::try_from_joints(&[h_joint(JointKind::Prismatic, s)], &[JointParent::World]).unwrap();
    let j = t.geometric_jacobian_at(&Vector::new([q, 0.0]), 0, JacobianFrame::World).unwrap();
    ((j.damped_pseudo_inverse(&Vector::new([0.0, 1.0]), 0.1) == Err(KinematicsError::NonPositiveWeight), j.column(1).is_none(), j.columns()), (true, true, 1))
}

// ---- wheeled bases ----
pub fn drive_round(r: f64, b: f64, v: f64, w: f64) -> ([f64; 4], [f64; 4]) {
    assume(r > 0.0 && b > 0.0);
    let d = DifferentialDrive::new(r, b).unwrap();
    let t = d.forward(d.inverse(BodyTwist::new(v, w)));
    let a = d.forward_arc(d.inverse_arc(BodyArc::new(v, w)));
    ([t.linear(), t.angular(), a.linear(), a.angular()], [v, w, v, w])
}
/// each wheel rolls without slipping: its ground speed is the body's speed at that wheel
pub fn drive_wheels(r: f64, b: f64, v: f64, w: f64) -> ([f64; 4], [f64; 4]) {
    assume(r > 0.0 && b > 0.0);
    let d = DifferentialDrive::new(r, b).unwrap();
    let k = d.inverse(BodyTwist::new(v, w));
    let a = d.inverse_arc(BodyArc::new(v, w));
    ([k.left() * r, k.right() * r, a.left() * r, a.right() * r], [v - w * b / 2.0, v + w * b / 2.0, v - w * b / 2.0, v + w * b / 2.0])
}
pub fn drive_travel(r: f64, b: f64, x: [f64; 2]) -> ([f64; 6], [f64; 6]) {
    assume(r > 0.0 && b > 0.0);
    let d = DifferentialDrive::new(r, b).unwrap();
    let k = d.wheel_rotations_from_travel(x[0], x[1]);
    let t = d.wheel_travel(k);
    ([k.left() * r, k.right() * r, t.0, t.1, d.wheel_radius(), d.wheelbase()], [x[0], x[1], x[0], x[1], r, b])
}
pub fn drive_rejects(r: f64, b: f64) -> (bool, bool) {
    (DifferentialDrive::new(r, b).is_ok(), r > 0.0 && b > 0.0)
}
pub fn twist_parts(v: f64, w: f64, s: f64, t: f64) -> ([f64; 8], [f64; 8]) {
    let b = BodyTwist::new(v, w);
    let k = *b.to_tangent().as_array();
    let p = BodyTwist::project_tangent(v3([v, s, w]));
    let a = b.integrate_over(t);
    ([k[0], k[1], k[2], p.linear(), p.angular(), BodyTwist::tangent_slip(v3([v, s, w])), a.linear(), a.angular()], [v, 0.0, w, v, w, s, v * t, w * t])
}
type Jt = Jet<f64, 5>;
/// driving a constant twist for time t solves the unicycle equations: every Taylor coefficient agrees
pub fn odometry_solves_unicycle(x: f64, y: f64, h: f64, v: f64, w: f64) -> ([[f64; 5]; 2], [[f64; 5]; 2]) {
    let t = Jt::new([0.0, 1.0, 0.0, 0.0, 0.0]);
    let pose = SE2::from_parts(SO2::exp(Jt::from_f64(h)), Vector::new([Jt::from_f64(x), Jt::from_f64(y)]));
    let o = integrate(pose, BodyArc::new(t * Jt::from_f64(v), t * Jt::from_f64(w)));
    let p = *o.translation().as_array();
    let (s, c) = (h.sin(), h.cos());
    (
        [p[0].coeffs, p[1].coeffs],
        [
            [x, v * c, -v * w * s / 2.0, -v * w * w * c / 6.0, v * w * w * w * s / 24.0],
            [y, v * s, v * w * c / 2.0, -v * w * w * s / 6.0, -v * w * w * w * c / 24.0],
        ],
    )
}
pub fn odometry_arc(x: f64, y: f64, h: f64, l: f64, a: f64) -> ([f64; 4], [f64; 4]) {
    assume(h_away(a));
    let o = integrate(SE2::from_parts(SO2::exp(h), Vector::new([x, y])), BodyArc::new(l, a));
    let (t, m) = (*o.translation().as_array(), o.rotation().act(Vector::new([1.0, 0.0])));
    let r = l / a;
    ([t[0], t[1], m[0], m[1]], [x + r * ((h + a).sin() - h.sin()), y - r * ((h + a).cos() - h.cos()), (h + a).cos(), (h + a).sin()])
}
pub fn odometry_wheels(x: f64, y: f64, h: f64, r: f64, b: f64, k: [f64; 2]) -> ([f64; 4], [f64; 4]) {
    assume(r > 0.0 && b > 0.0);
    let d = DifferentialDrive::new(r, b).unwrap();
    let pose = SE2::from_parts(SO2::exp(h), Vector::new([x, y]));
    let o = d.odometry_step(pose, WheelRotations::new(k[0], k[1]));
    let e = integrate(pose, BodyArc::new(r * (k[0] + k[1]) / 2.0, r * (k[1] - k[0]) / b));
    let f = |p: SE2| {
        let (t, m) = (*p.translation().as_array(), p.rotation().act(Vector::new([1.0, 0.0])));
        [t[0], t[1], m[0], m[1]]
    };
    (f(o), f(e))
}
pub fn odometry_step_fn(x: f64, y: f64, h: f64, l: f64, a: f64) -> ([f64; 4], [f64; 4]) {
    let o = OdometryStep.eval(&[x, y, h, l, a]);
    let e = integrate(SE2::from_parts(SO2::exp(h), Vector::new([x, y])), BodyArc::new(l, a));
    let (t, m) = (*e.translation().as_array(), e.rotation().act(Vector::new([1.0, 0.0])));
    ([o[0], o[1], o[2].cos(), o[2].sin()], [t[0], t[1], m[0], m[1]])
}
pub fn unicycle_rates(v: f64, w: f64, s: [f64; 3], t: f64) -> ([[f64; 3]; 2], [[f64; 3]; 2]) {
    let u = Unicycle::new(BodyTwist::new(v, w));
    let e = [v * s[2].cos(), v * s[2].sin(), w];
    ([*u.derivative(&v3(s)).as_array(), *u.field()(t, &v3(s)).as_array()], [e, e])
}

// ---- rotors ----
pub fn lag_rate(tau: f64, h: f64, y: [f64; 2], u: [f64; 2]) -> ([f64; 4], [f64; 4]) {
    assume(tau > 0.0 && h > 0.0);
    let l = RotorLag::<2>::new(tau, h).unwrap().with_thrusts(Vector::new(y));
    let r = l.rate(Vector::new(u));
    ([r[0], r[1], l.time_constant(), l.timestep()], [(u[0] - y[0]) / tau, (u[1] - y[1]) / tau, tau, h])
}
/// the exact answer of the lag equation held over one tick
pub fn lag_step(tau: f64, h: f64, k: f64, y: [f64; 2], u: [f64; 2]) -> ([[f64; 2]; 5], [[f64; 2]; 5]) {
    assume(tau > 0.0 && h > 0.0);
    let mut l = RotorLag::<2>::new(tau, h).unwrap().with_thrusts(Vector::new(y));
    let mut m = l;
    let a = *l.stepped(Vector::new(u)).as_array();
    let b = *m.stepped_over(Vector::new(u), k).as_array();
    let f = |t: f64| {
        let e = (-t / tau).exp();
        [u[0] + (y[0] - u[0]) * e, u[1] + (y[1] - u[1]) * e]
    };
    let (c, d) = (*l.thrusts().as_array(), *m.thrusts().as_array());
    l.reset();
    ([a, b, c, d, *l.thrusts().as_array()], [f(h), f(k), f(h), f(k), [0.0; 2]])
}
/// two steps make the longer step
pub fn lag_composes(tau: f64, h: f64, k: [f64; 2], y: f64, u: f64) -> (f64, f64) {
    assume(tau > 0.0 && h > 0.0);
    let mut l = RotorLag::<1>::new(tau, h).unwrap().with_thrusts(Vector::new([y]));
    let mut m = l;
    l.stepped_over(Vector::new([u]), k[0]);
    let a = l.stepped_over(Vector::new([u]), k[1]);
    (a[0], m.stepped_over(Vector::new([u]), k[0] + k[1])[0])
}
pub fn lag_rejects(tau: f64, h: f64) -> (bool, bool) {
    (RotorLag::<1>::new(tau, h).is_ok(), tau > 0.0 && h > 0.0)
}

// ---- clearances ----
fn h_norm(a: [f64; 3]) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}
fn h_clamp01(x: f64) -> f64 {
    x.max(0.0).min(1.0)
}
pub fn clearance_spheres(a: [[f64; 4]; 2], p: [[f64; 3]; 2], r: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    let (x, y) = (h_pose(h_unit(a[0]), p[0]), h_pose(h_unit(a[1]), p[1]));
    let e = h_norm(h_sub(p[0], p[1])) - r[0] - r[1];
    ([sphere_sphere_distance(x, r[0], y, r[1]), Primitive::Sphere { radius: r[0] }.distance_to(x, Primitive::Sphere { radius: r[1] }, y)], [e, e])
}
/// in the capsule's own axes the nearest axis point is the centre's height, held inside the segment
pub fn clearance_sphere_capsule(a: [f64; 4], t: [f64; 3], c: [f64; 3], r: [f64; 2], h: f64) -> ([f64; 3], [f64; 3]) {
    assume(h > 0.0 && h_away(h));
    let u = h_unit(a);
    let (s, k) = (h_pose([1.0, 0.0, 0.0, 0.0], c), h_pose(u, t));
    let l = h_tv(h_rot(u), h_sub(c, t));
    let z = h_clamp01((l[2] + h) / (2.0 * h)) * 2.0 * h - h;
    let e = h_norm([l[0], l[1], l[2] - z]) - r[0] - r[1];
    let (ps, pc) = (Primitive::Sphere { radius: r[0] }, Primitive::Capsule { radius: r[1], half_length: h });
    ([sphere_capsule_distance(s, r[0], k, r[1], h), ps.distance_to(s, pc, k), pc.distance_to(k, ps, s)], [e, e, e])
}
/// capsules at a right angle: each axis parameter is held inside its own segment
pub fn clearance_crossed(a: [f64; 4], t: [f64; 3], c: [f64; 3], r: [f64; 2], h: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    assume(h[0] > 0.0 && h[1] > 0.0 && h_away(h[0]) && h_away(h[1]) && h_away(h[0] * h[1]));
    let u = h_unit(a);
    let s = 0.5f64.sqrt();
    // second capsule: turned a quarter about y, so that its axis is the first one's x
    let (x, y) = (h_pose::<f64>(u, t), h_pose::<f64>(u, t) * h_pose([s, 0.0, s, 0.0], c));
    let p0 = h_clamp01((c[2] + h[0]) / (2.0 * h[0])) * 2.0 * h[0] - h[0];
    let p1 = h_clamp01((-c[0] + h[1]) / (2.0 * h[1])) * 2.0 * h[1] - h[1];
    let e = h_norm([c[0] + p1, c[1], c[2] - p0]) - r[0] - r[1];
    let (f, g) = (Primitive::Capsule { radius: r[0], half_length: h[0] }, Primitive::Capsule { radius: r[1], half_length: h[1] });
    ([capsule_capsule_distance(x, r[0], h[0], y, r[1], h[1]), f.distance_to(x, g, y)], [e, e])
}
/// interior closest points: the distance between the axes' lines
pub fn clearance_skew(a: f64, b: f64, d: f64, r: [f64; 2]) -> (f64, f64) {
    // axes u = z and w = (24, 0, 7)/25; the centres differ by a u + b w + d y
    let x = h_pose([1.0, 0.0, 0.0, 0.0], [0.0; 3]);
    let y = h_pose([0.8, 0.0, 0.6, 0.0], [0.96 * b, d, a + 0.28 * b]);
    assume(a > -1.0 && a < 1.0 && b > -1.0 && b < 1.0);
    (capsule_capsule_distance(x, r[0], 2.0, y, r[1], 2.0), (d * d).sqrt() - r[0] - r[1])
}
/// side by side: overlapping shadows leave the sideways gap
pub fn clearance_parallel(t: [f64; 3], r: [f64; 2]) -> (f64, f64) {
    let (x, y) = (h_pose([1.0, 0.0, 0.0, 0.0], [0.0; 3]), h_pose([1.0, 0.0, 0.0, 0.0], t));
    let gap = (t[2].abs() - 2.5).max(0.0);
    (capsule_capsule_distance(x, r[0], 2.0, y, r[1], 0.5), h_norm([t[0], t[1], gap]) - r[0] - r[1])
}
/// moving both bodies together changes nothing
pub fn clearance_frame_free(g: [f64; 4], p: [f64; 3], t: [f64; 3], a: [f64; 4], r: [f64; 2]) -> ([f64; 2], [f64; 2]) {
    let (x, y) = (h_pose::<f64>([1.0, 0.0, 0.0, 0.0], [0.0; 3]), h_pose::<f64>(h_unit(a), t));
    let m = h_pose::<f64>(h_unit(g), p);
    let f = |x: SE3, y: SE3| [capsule_capsule_distance(x, r[0], 2.0, y, r[1], 0.5), sphere_capsule_distance(x, r[0], y, r[1], 3.0)];
    (f(m * x, m * y), f(x, y))
}
/// one end beyond the other: the nearest points are two ends
pub fn clearance_ends(t: [f64; 3], r: [f64; 2]) -> (f64, f64) {
    // axes z and x; the second one's near end lies above and beside the first
    let (x, y) = (h_pose([1.0, 0.0, 0.0, 0.0], [0.0; 3]), h_pose([0.5f64.sqrt(), 0.0, 0.5f64.sqrt(), 0.0], t));
    assume(t[2] > 2.1 && t[0] > 1.6);
    (capsule_capsule_distance(x, r[0], 2.0, y, r[1], 1.5), h_norm([t[0] - 1.5, t[1], t[2] - 2.0]) - r[0] - r[1])
}
/// the reported pair is the smallest over every pair not excluded
fn h_query(q: [f64; 3], o: f64, r: [f64; 4], ex: bool) -> (f64, bool, f64) {
    let z = v3([0.0, 0.0, 1.0]);
    let j = |x: [f64; 3]| Joint::<f64>::prismatic(z, h_pose([1.0, 0.0, 0.0, 0.0], x));
    let w = JointParent::World;
    let t = KinematicTree::<3, 3>::try_from_joints(&[j([0.0; 3]), j([1.0, 0.0, 0.0]), j([2.5, 0.0, 0.0])], &[w, w, w]).unwrap();
    let mut c = CollisionQuery::<3, 1, 1>::new();
    for i in 0..3 {
        c.push_self_primitive(i, Primitive::Sphere { radius: r[i] }, h_pose([1.0, 0.0, 0.0, 0.0], [0.0, 0.5, 0.0])).unwrap();
    }
    c.push_environment_primitive(Primitive::Sphere { radius: r[3] }, h_pose([1.0, 0.0, 0.0, 0.0], [0.0, o, 0.0])).unwrap();
    if ex {
        c.exclude_pair(1, 0).unwrap();
    }
    let rep = c.check(&t.forward_kinematics(&v3(q)).unwrap()).unwrap();
    let x = [0.0, 1.0, 2.5];
    let pr = |a: usize, b: usize| h_norm([x[a] - x[b], 0.5 - 0.5, q[a] - q[b]]) - r[a] - r[b];
    let en = |a: usize| h_norm([x[a], 0.5 - o, q[a]]) - r[a] - r[3];
    let mut m = f64::MAX;
    let mut pair = (CollisionSource::SelfPrimitive(9), CollisionSource::SelfPrimitive(9));
    for a in 0..3 {
        for b in a + 1..3 {
            if !(ex && a == 0 && b == 1) && pr(a, b) < m {
                m = pr(a, b);
                pair = (CollisionSource::SelfPrimitive(a), CollisionSource::SelfPrimitive(b));
            }
        }
        if en(a) < m {
            m = en(a);
            pair = (CollisionSource::SelfPrimitive(a), CollisionSource::Environment(0));
        }
    }
    (rep.minimum_clearance, rep.closest_pair == Some(pair), m)
}
pub fn query_minimum(q: [f64; 3], o: f64, r: [f64; 4]) -> ((f64, bool), (f64, bool)) {
    let (a, b, c) = h_query(q, o, r, false);
    ((a, b), (c, true))
}
pub fn query_excluded(q: [f64; 3], o: f64, r: [f64; 4]) -> ((f64, bool), (f64, bool)) {
    let (a, b, c) = h_query(q, o, r, true);
    ((a, b), (c, true))
}
pub fn query_empty(q: f64, d: f64) -> ((f64, bool, bool), (f64, bool, bool)) {
    let j = Joint::<f64>::prismatic(v3([0.0, 0.0, 1.0]), SE3::identity());
    let t = KinematicTree::<1, 1>::try_from_joints(&[j], &[JointParent::World]).unwrap();
    let f = t.forward_kinematics(&Vector::new([q])).unwrap();
    let mut c = CollisionQuery::<2, 1, 1>::new();
    let r = c.check(&f).unwrap();
    let clear = r.is_clear(d);
    c.push_self_primitive(1, Primitive::Sphere { radius: 1.0 }, SE3::identity()).unwrap();
    ((r.minimum_clearance, clear, c.check(&f).is_err()), (0.0, true, true))
}
pub fn report_clear(m: f64, d: f64) -> (bool, bool) {
    let r = CollisionReport { minimum_clearance: m, closest_pair: Some((CollisionSource::SelfPrimitive(0), CollisionSource::Environment(0))) };
    (r.is_clear(d), m >= d)
}
pub fn query_capacity(r: f64) -> (([bool; 3], [usize; 2]), ([bool; 3], [usize; 2])) {
    let mut c = CollisionQuery::<1, 1, 1>::new();
    let s = Primitive::Sphere { radius: r };
    c.push_self_primitive(0, s, SE3::identity()).unwrap();
    c.push_environment_primitive(s, SE3::identity()).unwrap();
    c.exclude_pair(0, 1).unwrap();
    (
        ([c.push_self_primitive(0, s, SE3::identity()).is_err(), c.push_environment_primitive(s, SE3::identity()).is_err(), c.exclude_pair(0, 1).is_err()], [c.self_primitive_count(), c.environment_primitive_count()]),
        ([true; 3], [1, 1]),
    )
}
