//! Laws of inverse kinematics: one step, what stops it, what it reports, and starts from several seeds.
use crate::h_assume as assume;
use core::f64::consts::PI;
use multicalc::error::*;
use multicalc::kinematics::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::random::RandomSource;
use multicalc::spatial::{SE3, SO3};

fn v3(a: [f64; 3]) -> Vector<3, f64> {
    Vector::new(a)
}
fn h_at(p: [f64; 3]) -> SE3<f64> {
    SE3::from_parts(SO3::identity(), v3(p))
}
const W: JointParent = JointParent::World;
fn h_on(k: usize) -> JointParent {
    JointParent::Joint(k)
}
/// three slides along the axes
fn h_slides() -> KinematicTree<3, 3> {
    let j = |a: [f64; 3]| Joint::prismatic(v3(a), SE3::identity());
    KinematicTree::try_from_joints(&[j([1.0, 0.0, 0.0]), j([0.0, 1.0, 0.0]), j([0.0, 0.0, 1.0])], &[W, h_on(0), h_on(1)]).unwrap()
}
/// two slides along the same axis
fn h_rail() -> KinematicTree<2, 2> {
    let j = Joint::prismatic(v3([1.0, 0.0, 0.0]), SE3::identity());
    KinematicTree::try_from_joints(&[j, j], &[W, h_on(0)]).unwrap()
}
fn h_norm(a: [f64; 3]) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}
fn h_reason(t: InverseKinematicsTermination) -> usize {
    match t {
        InverseKinematicsTermination::Converged => 0,
        InverseKinematicsTermination::Stalled => 1,
        _ => 2,
    }
}
fn h_report<const N: usize>(r: InverseKinematicsReport<N>) -> ([f64; N], f64, f64, usize, usize) {
    (r.joint_positions.into_array(), r.position_error, r.orientation_error, r.iterations, h_reason(r.termination))
}
type R<const N: usize> = ([f64; N], f64, f64, usize, usize);

/// a damped, weighted step towards the target, and the residual it leaves
pub fn slide_step_pinv(q: [f64; 3], e: [f64; 3], w: [f64; 3], l: f64) -> (R<3>, R<3>) {
    let w = w.map(|x| x * x + 0.01);
    assume(l * l > 0.01 && h_norm(e) > 0.5);
    let s = InverseKinematics::<3>::new().with_maximum_iterations(1).with_maximum_step_norm(1e9).with_joint_weights(v3(w)).with_maximum_damping(l);
    let r = s.solve(&h_slides(), 2, h_at([q[0] + e[0], q[1] + e[1], q[2] + e[2]]), &v3(q)).unwrap();
    let d = [0, 1, 2].map(|i| e[i] / (1.0 + l * l * w[i]));
    assume(h_norm(d) < 1e6 && h_norm(d) > 0.001);
    let left = [0, 1, 2].map(|i| e[i] - d[i]);
    assume(h_norm(left) > 0.001);
    let n = [0, 1, 2].map(|i| q[i] + d[i]);
    (h_report(r), (n, h_norm(left), 0.0, 1, 2))
}
/// the step is shortened to the cap, and only when it is longer
pub fn slide_cap_pinv(q: [f64; 3], a: f64, k: f64) -> ([R<3>; 2], [R<3>; 2]) {
    let k = k * k + 0.1;
    let c = 2.0;
    assume(k < 1e6 && k * k > 0.0001 && (c + k) * (c + k) > 1.0);
    let u = [2.0 * a / (1.0 + a * a), (1.0 - a * a) / (1.0 + a * a), 0.0];
    let s = InverseKinematics::<3>::new().with_maximum_iterations(1).with_maximum_step_norm(c).with_maximum_damping(0.0);
    let go = |k: f64| h_report(s.solve(&h_slides(), 2, h_at([0, 1, 2].map(|i| q[i] + k * u[i])), &v3(q)).unwrap());
    let n = |k: f64| [0, 1, 2].map(|i| q[i] + u[i] * k);
    ([go(c + k), go(1.9)], [(n(c), k, 0.0, 1, 2), (n(1.9), 0.0, 0.0, 1, 0)])
}
/// a step that is not held back arrives, and says so even when the budget ends there
pub fn slide_arrives_pinv(q: [f64; 3], e: [f64; 3], w: [f64; 3]) -> ([R<3>; 2], [R<3>; 2]) {
    let w = w.map(|x| x * x + 0.01);
    assume(h_norm(e) > 0.5 && h_norm(e) < 1e6);
    let t = h_at([q[0] + e[0], q[1] + e[1], q[2] + e[2]]);
    let s = InverseKinematics::<3>::new().with_maximum_step_norm(1e9).with_joint_weights(v3(w)).with_maximum_damping(0.0);
    let a = s.with_maximum_iterations(1).solve(&h_slides(), 2, t, &v3(q)).unwrap();
    let b = s.with_maximum_iterations(7).solve(&h_slides(), 2, t, &v3(q)).unwrap();
    let n = [0, 1, 2].map(|i| q[i] + e[i]);
    ([h_report(a), h_report(b)], [(n, 0.0, 0.0, 1, 0), (n, 0.0, 0.0, 2, 0)])
}
/// nothing to do: the seed comes back at once
pub fn slide_there_pinv(q: [f64; 3], e: [f64; 3]) -> (R<3>, R<3>) {
    assume(h_norm(e) > 0.5 && h_norm(e) < 9.0);
    let s = InverseKinematics::<3>::new().with_position_tolerance(10.0);
    let r = s.solve(&h_slides(), 2, h_at([q[0] + e[0], q[1] + e[1], q[2] + e[2]]), &v3(q)).unwrap();
    (h_report(r), (q, h_norm(e), 0.0, 1, 0))
}
/// no budget: the residual of the seed
pub fn slide_no_budget(q: [f64; 3], e: [f64; 3]) -> (R<3>, R<3>) {
    assume(h_norm(e) > 0.5);
    let s = InverseKinematics::<3>::new().with_maximum_iterations(0);
    let r = s.solve(&h_slides(), 2, h_at([q[0] + e[0], q[1] + e[1], q[2] + e[2]]), &v3(q)).unwrap();
    (h_report(r), (q, h_norm(e), 0.0, 0, 2))
}
/// a step below the floor stops the search where it is
pub fn slide_stalls_pinv(q: [f64; 3], e: [f64; 3]) -> (R<3>, R<3>) {
    assume(h_norm(e) > 0.5 && h_norm(e) < 9.0);
    let s = InverseKinematics::<3>::new().with_minimum_step_norm(10.0).with_maximum_step_norm(1e9).with_maximum_damping(0.0);
    let r = s.solve(&h_slides(), 2, h_at([q[0] + e[0], q[1] + e[1], q[2] + e[2]]), &v3(q)).unwrap();
    (h_report(r), (q, h_norm(e), 0.0, 1, 1))
}
fn h_stop(a: f64) -> KinematicTree<1, 1> {
    let j = Joint::prismatic(v3([1.0, 0.0, 0.0]), SE3::identity());
    KinematicTree::<1, 1>::try_from_joints(&[j.with_limits(a, a + 1.0)], &[W]).unwrap()
}
fn h_stopped() -> InverseKinematics<1> {
    InverseKinematics::<1>::new().with_maximum_step_norm(1e9).with_maximum_damping(0.0)
}
/// pressed against its end stop, a slide stalls there
pub fn slide_limit_pinv(a: f64, x: f64) -> (R<1>, R<1>) {
    let x = x * x + 0.1;
    assume(x < 1e6);
    let r = h_stopped().with_maximum_iterations(3).solve(&h_stop(a), 0, h_at([a + x + 1.0, 0.0, 0.0]), &Vector::new([a])).unwrap();
    (h_report(r), ([a + 1.0], x, 0.0, 2, 1))
}
pub fn slide_limit_below_pinv(a: f64, x: f64) -> (R<1>, R<1>) {
    let x = x * x + 0.1;
    assume(x < 1e6);
    let r = h_stopped().with_maximum_iterations(3).solve(&h_stop(a), 0, h_at([a - x, 0.0, 0.0]), &Vector::new([a + 0.5])).unwrap();
    (h_report(r), ([a], x, 0.0, 2, 1))
}
/// a seed outside is brought inside before anything else
pub fn slide_seed_inside_pinv(a: f64, x: f64) -> (R<1>, R<1>) {
    let x = x * x + 0.1;
    assume(x < 1e6);
    let r = h_stopped().with_maximum_iterations(3).solve(&h_stop(a), 0, h_at([a - x, 0.0, 0.0]), &Vector::new([a - x])).unwrap();
    (h_report(r), ([a], x, 0.0, 1, 1))
}
pub fn slide_unlimited_pinv(a: f64, x: f64) -> (R<1>, R<1>) {
    let x = x * x + 0.1;
    assume(x < 1e6);
    let r = h_stopped().with_maximum_iterations(3).with_respect_limits(false).solve(&h_stop(a), 0, h_at([a + x + 1.0, 0.0, 0.0]), &Vector::new([a])).unwrap();
    (h_report(r), ([a + x + 1.0], 0.0, 0.0, 2, 0))
}
/// shared work goes by the inverse of the weights, and a preference only to what the task leaves over
pub fn rail_posture_pinv(q: [f64; 2], p: [f64; 2], e: f64, w: [f64; 2], g: f64) -> (R<2>, R<2>) {
    let w = w.map(|x| x * x + 0.01);
    assume(e > 0.1 || e < -0.1);
    let s = InverseKinematics::<2>::new()
        .with_maximum_iterations(1)
        .with_maximum_step_norm(1e9)
        .with_joint_weights(Vector::new(w))
        .with_maximum_damping(0.0)
        .with_secondary_objective(SecondaryObjective::PreferredPosture(Vector::new(p)))
        .with_secondary_gain(g);
    let r = s.solve(&h_rail(), 1, h_at([q[0] + q[1] + e, 0.0, 0.0]), &Vector::new(q)).unwrap();
    let b = [g * (p[0] - q[0]), g * (p[1] - q[1])];
    let m = 1.0 / w[0] + 1.0 / w[1];
    let t = e - (b[0] + b[1]);
    let d = [b[0] + t / w[0] / m, b[1] + t / w[1] / m];
    let k = (d[0] * d[0] + d[1] * d[1]).sqrt();
    assume(k > 0.001 && k < 1e6);
    (h_report(r), ([q[0] + d[0], q[1] + d[1]], 0.0, 0.0, 1, 0))
}
/// towards the middle of the range of each joint that has one
pub fn rail_margin_pinv(q: [f64; 2], c: [f64; 2], e: f64, g: f64) -> (R<2>, R<2>) {
    assume(e > 0.1 || e < -0.1);
    let h = 1000.0;
    let j = Joint::prismatic(v3([1.0, 0.0, 0.0]), SE3::identity());
    let t = KinematicTree::<2, 2>::try_from_joints(&[j.with_limits(c[0] - h, c[0] + h), j], &[W, h_on(0)]).unwrap();
    let s = InverseKinematics::<2>::new()
        .with_respect_limits(false)
        .with_maximum_iterations(1)
        .with_maximum_step_norm(1e9)
        .with_maximum_damping(0.0)
        .with_secondary_objective(SecondaryObjective::JointLimitMargin)
        .with_secondary_gain(g);
    let r = s.solve(&t, 1, h_at([q[0] + q[1] + e, 0.0, 0.0]), &Vector::new(q)).unwrap();
    let b = g * (c[0] - q[0]) / (2.0 * h);
    let t = e - b;
    let d = [b + t / 2.0, t / 2.0];
    let k = (d[0] * d[0] + d[1] * d[1]).sqrt();
    assume(k > 0.001 && k < 1e6);
    (h_report(r), ([q[0] + d[0], q[1] + d[1]], 0.0, 0.0, 1, 0))
}
/// continuous joints go to the preferred posture the short way round
pub fn continuous_posture_pinv(q: f64) -> (f64, f64) {
    let z = v3([0.0, 0.0, 1.0]);
    let t = KinematicTree::<2, 2>::try_from_joints(&[Joint::continuous(z, SE3::identity()), Joint::continuous(z, SE3::identity())], &[W, h_on(0)]).unwrap();
    let s = InverseKinematics::<2>::new()
        .with_maximum_iterations(1)
        .with_maximum_step_norm(1e9)
        .with_maximum_damping(0.0)
        .with_secondary_objective(SecondaryObjective::PreferredPosture(Vector::new([3.0, -3.0])))
        .with_secondary_gain(0.5)
        .with_position_tolerance(-1.0);
    let _ = q;
    let r = s.solve(&t, 1, SE3::identity(), &Vector::new([-3.0, 3.0])).unwrap();
    (r.joint_positions[0] - (-3.0), 0.5 * (6.0 - 2.0 * PI))
}
/// a turn about a fixed axis is undone in a single step, wherever the tool is
pub fn turn_step_pinv(p: [f64; 3], c: f64) -> (R<2>, R<2>) {
    let l = p.map(|x| x * x + 0.01);
    let z = v3([0.0, 0.0, 1.0]);
    let t = KinematicTree::<2, 2>::try_from_joints(&[Joint::revolute(z, SE3::identity()), Joint::fixed(h_at(l))], &[W, h_on(0)]).unwrap();
    let d = 0.5;
    let goal = t.forward_kinematics(&Vector::new([d, 0.0])).unwrap().pose(1).unwrap();
    let s = InverseKinematics::<2>::new().with_maximum_step_norm(1e9).with_maximum_damping(0.0).with_maximum_iterations(1);
    let r = s.solve(&t, 1, goal, &Vector::new([0.0, c])).unwrap();
    (h_report(r), ([d, c], 0.0, 0.0, 1, 0))
}
/// the ramp of the damping with the smallest singular value
pub fn float_step_pinv(p: [f64; 3], e: [f64; 3], l: f64) -> (([f64; 7], usize), ([f64; 7], usize)) {
    let t = KinematicTree::<1, 7>::try_from_joints(&[Joint::floating(SE3::identity())], &[W]).unwrap();
    assume(h_norm(e) > 0.5 && l * l > 0.01);
    let q = [p[0], p[1], p[2], 1.0, 0.0, 0.0, 0.0];
    let s = InverseKinematics::<7>::new().with_maximum_iterations(1).with_maximum_step_norm(1e9).with_maximum_damping(l).with_singular_value_threshold(2.0);
    let r = s.solve(&t, 0, h_at([p[0] + e[0], p[1] + e[1], p[2] + e[2]]), &Vector::new(q)).unwrap();
    let g = t.geometric_jacobian_at(&Vector::new(q), 0, JacobianFrame::Body).unwrap();
    let sigma = g.smallest_singular_value().unwrap();
    let x = sigma / 2.0;
    let k = if sigma >= 2.0 { 0.0 } else { l * l * (1.0 - x * x) };
    let d = [0, 1, 2].map(|i| e[i] / (1.0 + k));
    let n = h_norm(d);
    assume(n > 0.001 && n < 1e6);
    ((r.joint_positions.into_array(), r.iterations), ([p[0] + d[0], p[1] + d[1], p[2] + d[2], 1.0, 0.0, 0.0, 0.0], 1))
}
pub fn solve_refuses(w: f64) -> bool {
    let w = w * w + 0.01;
    let n = f64::NAN;
    let t = h_slides();
    let s = InverseKinematics::<3>::new();
    let e = |s: InverseKinematics<3>, k: usize, g: SE3<f64>, q: [f64; 3]| s.solve(&t, k, g, &v3(q)).err();
    let i = SE3::identity();
    e(s, 3, i, [0.0; 3]) == Some(KinematicsError::ToolIndexOutOfRange)
        && e(s, 0, i, [0.0, n, 0.0]) == Some(KinematicsError::NonFinite)
        && e(s, 0, h_at([0.0, 0.0, n]), [0.0; 3]) == Some(KinematicsError::NonFinite)
        && e(s.with_joint_weights(v3([w, 0.0, w])), 0, i, [0.0; 3]) == Some(KinematicsError::NonPositiveWeight)
        && e(s.with_joint_weights(v3([w, w, -w])), 0, i, [0.0; 3]) == Some(KinematicsError::NonPositiveWeight)
}

// ---- the Jacobian as a map ----
fn h_rails(a: [[f64; 3]; 2], c: usize) -> KinematicJacobian<3> {
    let j = |a: [f64; 3]| Joint::prismatic(v3(a), SE3::identity());
    let t = if c == 2 {
        KinematicTree::<3, 3>::try_from_joints(&[j(a[0]), j(a[1])], &[W, h_on(0)]).unwrap()
    } else {
        KinematicTree::<3, 3>::try_from_joints(&[j(a[0]), j(a[1]), j([0.0, 0.0, 1.0])], &[W, h_on(0), h_on(1)]).unwrap()
    };
    t.geometric_jacobian_at(&v3([0.3, 0.2, 0.1]), c - 1, JacobianFrame::World).unwrap()
}
/// P (J W^-1 J' + l^2) = W^-1 J', and the projector is 1 - P J
pub fn damped_inverse_pinv(a: [[f64; 3]; 2], w: [f64; 3], l: f64) -> (([[f64; 6]; 3], [[f64; 3]; 3]), ([[f64; 6]; 3], [[f64; 3]; 3])) {
    let w = w.map(|x| x * x + 0.01);
    assume(l * l > 0.01);
    let j = h_rails(a, 2);
    let p = j.damped_pseudo_inverse(&v3(w), l).unwrap();
    let m = j.matrix();
    let wt = Matrix::<3, 6, f64>::from_fn(|r, c| m[(c, r)] / w[r]);
    let n = j.null_space_projector(&v3(w), l).unwrap();
    let e = Matrix::<3, 3, f64>::identity() - p * m;
    (((p * (m * wt + Matrix::<6, 6, f64>::identity().scale(l * l))).into_array(), n.into_array()), (wt.into_array(), e.into_array()))
}
/// undamped, moving along the projector does not move the tool, and it is idempotent
pub fn projector_pinv(a: [[f64; 3]; 2], b: [f64; 3], w: [f64; 3]) -> (([f64; 6], [[f64; 3]; 3]), ([f64; 6], [[f64; 3]; 3])) {
    let w = w.map(|x| x * x + 0.01);
    let z = [[a[0][0], a[0][1], 0.0], [a[1][0], a[1][1], 0.0]];
    let j = Joint::prismatic(v3([1.0, 0.0, 0.0]), SE3::identity());
    let k = |a: [f64; 3]| Joint::prismatic(v3(a), SE3::identity());
    let t = KinematicTree::<3, 3>::try_from_joints(&[j, k(z[0]), k(z[1])], &[W, h_on(0), h_on(1)]).unwrap();
    let g = t.geometric_jacobian_at(&v3([0.3, 0.2, 0.1]), 2, JacobianFrame::World).unwrap();
    let n = g.null_space_projector(&v3(w), 0.0).unwrap();
    ((g.tool_twist(&(n * v3(b))).as_array(), (n * n).into_array()), ([0.0; 6], n.into_array()))
}
pub fn weights_refused(w: f64) -> bool {
    let w = w * w + 0.01;
    let j = h_rails([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], 3);
    let bad = |w: [f64; 3]| j.damped_pseudo_inverse(&v3(w), 0.1).err() == Some(KinematicsError::NonPositiveWeight) && j.null_space_projector(&v3(w), 0.1).err() == Some(KinematicsError::NonPositiveWeight);
    bad([w, w, 0.0]) && bad([-w, w, w]) && bad([w, -w, w])
}
pub fn singular_values() -> ([f64; 2], [f64; 2]) {
    let j = h_rails([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], 3);
    let t = KinematicTree::<1, 7>::try_from_joints(&[Joint::floating(SE3::identity())], &[W]).unwrap();
    let g = t.geometric_jacobian_at(&Vector::new([0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0]), 0, JacobianFrame::World).unwrap();
    ([j.smallest_singular_value().unwrap(), g.smallest_singular_value().unwrap()], [0.0, 1.0])
}
/// what is lost: nothing, a place, a turn, or some of both
pub fn singularity_kinds() -> bool {
    let i = SE3::identity();
    let p = |a: [f64; 3]| Joint::<f64>::prismatic(v3(a), i);
    let r = |a: [f64; 3]| Joint::<f64>::continuous(v3(a), i);
    let (x, y, z) = ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]);
    let h = [W, h_on(0), h_on(1), h_on(2), h_on(3)];
    let kind = |j: [Joint<f64>; 5]| {
        let t = KinematicTree::<5, 5>::try_from_joints(&j, &h).unwrap();
        t.geometric_jacobian_at(&Vector::zeros(), 4, JacobianFrame::World).unwrap().classify_singularity(0.5)
    };
    let f = KinematicTree::<1, 7>::try_from_joints(&[Joint::floating(i)], &[W]).unwrap();
    let g = f.geometric_jacobian_at(&Vector::new([0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0]), 0, JacobianFrame::World).unwrap();
    kind([p(x), p(y), p(z), r(x), r(y)]) == Ok(SingularityKind::Rotational)
        && kind([p(x), p(y), r(z), r(x), r(y)]) == Ok(SingularityKind::Positional)
        && g.classify_singularity(0.5) == Ok(SingularityKind::None)
        && g.classify_singularity(1.5) != Ok(SingularityKind::None)
}

// ---- several starts ----
struct Tape {
    draws: [f64; 4],
    at: usize,
}
impl RandomSource<f64> for Tape {
    fn next_u32(&mut self) -> u32 {
        0
    }
    fn next_unit(&mut self) -> f64 {
        let x = self.draws[self.at];
        self.at += 1;
        x
    }
    fn get_cache(&mut self) -> Option<f64> {
        None
    }
    fn set_cache(&mut self, _value: f64) {}
}
/// every start that converges is kept unless it repeats one that was
pub fn starts_distinct_pinv(x: f64) -> ((usize, usize, [[f64; 2]; 2]), (usize, usize, [[f64; 2]; 2])) {
    assume(x > -5.0 && x < 5.0);
    let t = h_rail();
    let m = MultiStartInverseKinematics::<4, 2>::new().with_distinct_threshold(0.5).with_solver(InverseKinematics::new().with_maximum_iterations(0));
    let seed = |d: f64| Vector::new([x + d, 1.0 - x - d]);
    let r = m.solve_from_seeds(&t, 1, h_at([1.0, 0.0, 0.0]), &[seed(0.0), seed(0.1), Vector::new([x, 7.0]), seed(2.0)]).unwrap();
    let s = r.solutions();
    ((r.attempts(), r.len(), [s[0].joint_positions.into_array(), s[1].joint_positions.into_array()]), (4, 2, [[x, 1.0 - x], [x + 2.0, -1.0 - x]]))
}
pub fn starts_refuse(x: f64) -> bool {
    let t = h_rail();
    let m = MultiStartInverseKinematics::<1, 2>::new();
    let s = Vector::new([x, 1.0 - x]);
    let none = m.solve_from_seeds(&t, 1, h_at([1.0, 0.0, 0.0]), &[]).unwrap();
    let one = m.solve_from_seeds(&t, 1, h_at([1.0, 0.0, 0.0]), &[s]).unwrap();
    let mut tape = Tape { draws: [0.5; 4], at: 0 };
    m.solve_from_seeds(&t, 1, h_at([1.0, 0.0, 0.0]), &[s, s]).err() == Some(KinematicsError::StartCapacityExceeded)
        && m.solve_seeded(&t, 1, h_at([1.0, 0.0, 0.0]), &s, &mut tape, 2).err() == Some(KinematicsError::StartCapacityExceeded)
        && tape.at == 0
        && m.solve_from_seeds(&t, 2, h_at([1.0, 0.0, 0.0]), &[s]).err() == Some(KinematicsError::ToolIndexOutOfRange)
        && none.is_empty()
        && none.attempts() == 0
        && none.closest_to(&t, &s).is_none()
        && !one.is_empty()
        && one.len() == 1
}
/// the first start is the given one, the others are drawn inside the limits or around it
pub fn starts_drawn(q: [f64; 4], l: f64, h: f64, u: [f64; 4], s: f64) -> (([[f64; 4]; 3], usize), ([[f64; 4]; 3], usize)) {
    let h = l + h * h + 0.1;
    let j = |a: [f64; 3]| Joint::prismatic(v3(a), SE3::identity());
    let t = KinematicTree::<4, 4>::try_from_joints(
        &[j([1.0, 0.0, 0.0]).with_limits(l, h), Joint::fixed(SE3::identity()), j([0.0, 1.0, 0.0]), Joint::fixed(SE3::identity())],
        &[W, h_on(0), h_on(1), h_on(2)],
    )
    .unwrap();
    let e = InverseKinematics::new().with_respect_limits(false).with_position_tolerance(1e9);
    let m = MultiStartInverseKinematics::<3, 4>::new().with_distinct_threshold(0.0).with_jitter_span(s).with_solver(e);
    let mut tape = Tape { draws: u, at: 0 };
    let g = SE3::identity();
    let n = |x: f64, y: f64| assume((x * x + y * y).sqrt() < 1e8);
    let a = [q, [l + u[0] * (h - l), q[1], q[2] + (2.0 * u[1] - 1.0) * s, q[3]], [l + u[2] * (h - l), q[1], q[2] + (2.0 * u[3] - 1.0) * s, q[3]]];
    n(a[0][0], a[0][2]);
    n(a[1][0], a[1][2]);
    n(a[2][0], a[2][2]);
    let r = m.solve_seeded(&t, 3, g, &Vector::new(q), &mut tape, 3).unwrap();
    let o = r.solutions();
    (([o[0].joint_positions.into_array(), o[1].joint_positions.into_array(), o[2].joint_positions.into_array()], tape.at), (a, 4))
}
/// the first of the nearest
pub fn starts_closest(x: f64) -> bool {
    let t = h_rail();
    let m = MultiStartInverseKinematics::<4, 2>::new();
    let seed = |d: f64| Vector::new([x + d, 1.0 - x - d]);
    let r = m.solve_from_seeds(&t, 1, h_at([1.0, 0.0, 0.0]), &[seed(4.0), seed(1.0), seed(-2.0)]).unwrap();
    let near = |d: f64| r.closest_to(&t, &seed(d)).map(|s| s.joint_positions[0] - x);
    near(0.0) == Some(1.0) && near(9.0) == Some(4.0) && near(2.5) == Some(4.0) && near(-1.9) == Some(-2.0) && near(-0.5) == Some(1.0) && near(-0.6) == Some(-2.0)
}
/// differences of readings, turns the short way, places and turns of a floating base
pub fn distances(q: [[f64; 3]; 2], a: [f64; 3], b: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let z = v3([0.0, 0.0, 1.0]);
    let i = SE3::identity();
    let t = KinematicTree::<4, 4>::try_from_joints(&[Joint::revolute(z, i), Joint::fixed(i), Joint::continuous(z, i), Joint::prismatic(z, i)], &[W, h_on(0), h_on(1), h_on(2)]).unwrap();
    let f = KinematicTree::<1, 7>::try_from_joints(&[Joint::floating(i)], &[W]).unwrap();
    let d = |x: f64, y: f64| t.configuration_distance(&Vector::new([q[0][0], 1.0, x, q[0][1]]), &Vector::new([q[1][0], 5.0, y, q[1][1]]));
    let k = q[0][0] - q[1][0];
    let s = q[0][1] - q[1][1];
    let m = 2.0 * PI - 6.0;
    let w = 0.5_f64;
    let e = f.configuration_distance(
        &Vector::new([a[0], a[1], a[2], 1.0, 0.0, 0.0, 0.0]),
        &Vector::new([b[0], b[1], b[2], (w / 2.0).cos(), 0.0, (w / 2.0).sin(), 0.0]),
    );
    let p = [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
    ([d(3.0, -3.0), d(0.25, 1.0), e], [(k * k + m * m + s * s).sqrt(), (k * k + 0.75 * 0.75 + s * s).sqrt(), (p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + w * w).sqrt()])
}
