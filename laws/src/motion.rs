//! Laws of motion profiles, polyline paths and minimum-snap curves.
use crate::h_assume as assume;
use multicalc::error::MotionError;
use multicalc::linear_algebra::Vector;
use multicalc::motion::*;

fn h_limits(v: f64, a: f64, j: Option<f64>) -> MotionProfilePlanner<f64> {
    MotionProfilePlanner::new(ProfileLimits::try_new(v, a, j).unwrap())
}
fn h_sign(back: bool) -> f64 {
    if back { -1.0 } else { 1.0 }
}
/// makes x known as the root of its square
fn h_root(x: f64) -> f64 {
    x * x
}
type S4 = [f64; 4];
fn h_state(s: ProfileState<f64>) -> S4 {
    [s.position, s.velocity, s.acceleration, s.jerk]
}

pub fn limits_refuse(v: f64, a: f64) -> bool {
    let (v, a) = (v * v + 0.01, a * a + 0.01);
    let e = Some(MotionError::LimitNotPositive);
    let t = |v: f64, a: f64, j: Option<f64>| ProfileLimits::try_new(v, a, j).err() == e;
    t(-v, a, None)
        && t(0.0, a, None)
        && t(v, -a, Some(1.0))
        && t(v, 0.0, None)
        && t(v, a, Some(-v))
        && t(v, a, Some(0.0))
        && t(f64::NAN, a, None)
        && t(v, f64::INFINITY, None)
        && t(v, a, Some(f64::NAN))
        && ProfileLimits::try_new(v, a, None).is_ok()
        && ProfileLimits::try_new(v, a, Some(a)).is_ok()
}
pub fn plan_refuses(v: f64, a: f64, d: f64) -> bool {
    let (v, a) = (v * v + 0.01, a * a + 0.01);
    h_limits(v, a, None).plan(f64::NAN).err() == Some(MotionError::NonFinite)
        && h_limits(v, a, Some(a)).plan(f64::INFINITY).err() == Some(MotionError::NonFinite)
        && h_limits(v, a, None).with_strategy(ProfileStrategy::JerkLimited).plan(d).err() == Some(MotionError::JerkLimitRequired)
        && h_limits(v, a, None).plan(1.0).unwrap().state_at(f64::NAN).err() == Some(MotionError::NonFinite)
}
pub fn plan_nothing(v: f64, a: f64, j: f64, t: f64) -> ((S4, S4, [f64; 4]), (S4, S4, [f64; 4])) {
    let (v, a, j) = (v * v + 0.01, a * a + 0.01, j * j + 0.01);
    let p = h_limits(v, a, None).plan(0.0).unwrap();
    let q = h_limits(v, a, Some(j)).plan(0.0).unwrap();
    ((h_state(p.state_at(t).unwrap()), h_state(q.state_at(t).unwrap()), [p.duration(), p.distance(), q.duration(), q.distance()]), ([0.0; 4], [0.0; 4], [0.0; 4]))
}
/// ramp to the speed limit, cruise, ramp down
pub fn trapezoid_plan(a: f64, r: f64, c: f64, back: bool) -> (([f64; 7], f64, f64, f64), ([f64; 7], f64, f64, f64)) {
    let (a, r, c) = (a * a + 0.01, r * r + 0.01, c * c + 0.01);
    let v = a * r;
    let d = v * r + v * c;
    assume((d * a).sqrt() > v);
    let p = h_limits(v, a, None).plan(h_sign(back) * d).unwrap();
    ((p.phase_durations(), p.duration(), p.distance(), p.peak_speed()), ([0.0, r, 0.0, c, 0.0, r, 0.0], 2.0 * r + c, h_sign(back) * d, h_sign(back) * v))
}
fn h_trapezoid(a: f64, r: f64, c: f64, t: f64) -> S4 {
    let v = a * r;
    let (d, u) = (v * (r + c), 2.0 * r + c - t);
    if t <= 0.0 {
        [0.0, 0.0, a, 0.0]
    } else if t < r {
        [a * t * t / 2.0, a * t, a, 0.0]
    } else if t < r + c {
        [a * r * r / 2.0 + v * (t - r), v, 0.0, 0.0]
    } else if t < 2.0 * r + c {
        [d - a * u * u / 2.0, a * u, -a, 0.0]
    } else {
        [d, 0.0, 0.0, 0.0]
    }
}
pub fn trapezoid_state(a: f64, t: f64, back: bool) -> (S4, S4) {
    let a = a * a + 0.01;
    let (r, c) = (2.0, 6.0);
    h_root(4.0 * a);
    let v = a * r;
    let d = v * r + v * c;
    let p = h_limits(v, a, None).plan(h_sign(back) * d).unwrap();
    (h_state(p.state_at(t).unwrap()), h_trapezoid(a, r, c, t).map(|x| h_sign(back) * x))
}
/// too short for the speed limit: the peak is what half the way allows
pub fn triangle_plan(a: f64, r: f64, u: f64, back: bool) -> (([f64; 7], f64, f64, f64), ([f64; 7], f64, f64, f64)) {
    let (a, r, u) = (a * a + 0.01, r * r + 0.01, u * u + 0.01);
    let v = a * r;
    h_root(v);
    let p = h_limits(v + u, a, None).plan(h_sign(back) * v * r).unwrap();
    ((p.phase_durations(), p.duration(), p.distance(), p.peak_speed()), ([0.0, r, 0.0, 0.0, 0.0, r, 0.0], 2.0 * r, h_sign(back) * v * r, h_sign(back) * v))
}
pub fn triangle_state(a: f64, u: f64, t: f64, back: bool) -> (S4, S4) {
    let (a, u) = (a * a + 0.01, u * u + 0.01);
    let r = 2.0;
    let v = a * r;
    h_root(v);
    let p = h_limits(v + u, a, None).plan(h_sign(back) * v * r).unwrap();
    (h_state(p.state_at(t).unwrap()), h_trapezoid(a, r, 0.0, t).map(|x| h_sign(back) * x))
}
/// a jerk limit rounds the corners; without one the strategy does not matter
pub fn strategies(a: f64, v: f64, j: f64, d: f64) -> bool {
    let (v, a, j) = (v * v + 0.01, a * a + 0.01, j * j + 0.01);
    let n = h_limits(v, a, None);
    let l = h_limits(v, a, Some(j));
    n.plan(d) == n.with_strategy(ProfileStrategy::Trapezoidal).plan(d)
        && l.with_strategy(ProfileStrategy::Trapezoidal).plan(d) == n.plan(d)
        && l.plan(d) == l.with_strategy(ProfileStrategy::JerkLimited).plan(d)
}
/// the seven phases of a long move
pub fn jerk_plan(j: f64, r: f64, h: f64, c: f64, back: bool) -> (([f64; 7], f64, f64, f64), ([f64; 7], f64, f64, f64)) {
    let (j, r, h, c) = (j * j + 0.01, r * r + 0.01, h * h + 0.01, c * c + 0.01);
    let a = j * r;
    let v = a * (r + h);
    let ramp = r + r + h;
    let d = v * ramp + v * c;
    let tri = (d * d * j / 4.0).cbrt();
    assume(tri * j >= a * a && v * j >= a * a);
    let k = a * a / j;
    assume((-k + (k * k + a * d * 4.0).sqrt()) * 0.5 > v);
    let p = h_limits(v, a, Some(j)).plan(h_sign(back) * d).unwrap();
    ((p.phase_durations(), p.duration(), p.distance(), p.peak_speed()), ([r, h, r, c, r, h, r], 4.0 * r + 2.0 * h + c, h_sign(back) * d, h_sign(back) * v))
}
/// a move too short for the speed limit but long enough for the acceleration limit
pub fn jerk_no_cruise(j: f64, r: f64, h: f64, u: f64, back: bool) -> (([f64; 7], f64, f64, f64), ([f64; 7], f64, f64, f64)) {
    let (j, r, h, u) = (j * j + 0.01, r * r + 0.01, h * h + 0.01, u * u + 0.01);
    let a = j * r;
    let v = a * (r + h);
    let d = v * (r + r + h);
    let tri = (d * d * j / 4.0).cbrt();
    assume(tri * j >= a * a && v * j >= a * a);
    h_root(a * (3.0 * r + 2.0 * h));
    let p = h_limits(v + u, a, Some(j)).plan(h_sign(back) * d).unwrap();
    ((p.phase_durations(), p.duration(), p.distance(), p.peak_speed()), ([r, h, r, 0.0, r, h, r], 4.0 * r + 2.0 * h, h_sign(back) * d, h_sign(back) * v))
}
/// a move too short for the acceleration limit
pub fn jerk_short(j: f64, r: f64, u: f64, w: f64, back: bool) -> (([f64; 7], f64, f64, f64), ([f64; 7], f64, f64, f64)) {
    let (j, r, u, w) = (j * j + 0.01, r * r + 0.01, u * u + 0.01, w * w + 0.01);
    let a = j * r + w;
    let v = j * r * r;
    assume(v * j < a * a);
    h_root(r);
    let p = h_limits(v + u, a, Some(j)).plan(h_sign(back) * 2.0 * v * r).unwrap();
    ((p.phase_durations(), p.duration(), p.distance(), p.peak_speed()), ([r, 0.0, r, 0.0, r, 0.0, r], 4.0 * r, h_sign(back) * 2.0 * v * r, h_sign(back) * v))
}
/// a speed limit reached before the acceleration limit
pub fn jerk_slow(j: f64, r: f64, c: f64, w: f64, back: bool) -> (([f64; 7], f64, f64, f64), ([f64; 7], f64, f64, f64)) {
    let (j, r, c, w) = (j * j + 0.01, r * r + 0.01, c * c + 0.01, w * w + 0.01);
    let a = j * r + w;
    let v = j * r * r;
    let d = v * (2.0 * r + c);
    assume(v * j < a * a);
    h_root(r);
    let tri = (d * d * j / 4.0).cbrt();
    let k = a * a / j;
    let reach = if tri * j < a * a { tri } else { (-k + (k * k + a * d * 4.0).sqrt()) * 0.5 };
    assume(reach > v);
    let p = h_limits(v, a, Some(j)).plan(h_sign(back) * d).unwrap();
    ((p.phase_durations(), p.duration(), p.distance(), p.peak_speed()), ([r, 0.0, r, c, r, 0.0, r], 4.0 * r + c, h_sign(back) * d, h_sign(back) * v))
}
/// the state follows the jerk: each phase starts where the one before it ended
pub fn jerk_state(j: f64, t: f64, back: bool) -> (S4, S4) {
    let j = j * j + 0.01;
    let (r, h, c) = (1.0, 0.5, 5.5);
    h_root(7.0 * j);
    let a = j * r;
    let v = a * (r + h);
    let d = v * (r + r + h) + v * c;
    assume((d * d * j / 4.0).cbrt() * j >= a * a && v * j >= a * a);
    let p = h_limits(v, a, Some(j)).plan(h_sign(back) * d).unwrap();
    let s = [r, h, r, c, r, h, r];
    let w = [j, 0.0, -j, 0.0, -j, 0.0, j];
    let mut x = [0.0, 0.0, 0.0];
    let mut left = if t < 0.0 { 0.0 } else { t };
    let mut out = [d, 0.0, 0.0, 0.0];
    let mut found = false;
    for i in 0..7 {
        let e = if found || left < s[i] { left } else { s[i] };
        let y = [x[0] + x[1] * e + x[2] * e * e / 2.0 + w[i] * e * e * e / 6.0, x[1] + x[2] * e + w[i] * e * e / 2.0, x[2] + w[i] * e];
        if !found && left < s[i] {
            out = [y[0], y[1], y[2], w[i]];
            found = true;
        }
        x = y;
        left = left - s[i];
    }
    (h_state(p.state_at(t).unwrap()), out.map(|x| h_sign(back) * x))
}
/// a slower run of the same move
pub fn stretch(a: f64, k: f64) -> (([S4; 5], [f64; 3]), ([S4; 5], [f64; 3])) {
    let (a, k) = (a * a + 0.01, k * k + 1.01);
    h_root(2.0 * a);
    let p = h_limits(2.0 * a, a, None).plan(4.0 * a).unwrap();
    let q = p.stretched_to(4.0 * k);
    let t = [-1.0, 0.5, 1.25, 3.0, 6.0];
    let f = |s: ProfileState<f64>| [s.position, s.velocity / k, s.acceleration / (k * k), s.jerk / (k * k * k)];
    (
        (t.map(|t| h_state(q.state_at(k * t).unwrap())), [q.duration(), q.distance(), q.peak_speed()]),
        (t.map(|t| f(p.state_at(t).unwrap())), [4.0 * k, p.distance(), p.peak_speed() / k]),
    )
}
pub fn stretch_jerk(j: f64, k: f64) -> ((S4, S4, f64), (S4, S4, f64)) {
    let (j, k) = (j * j + 0.01, k * k + 1.01);
    let a = 10.0 * j;
    assume(j * j < a * a && a > j);
    let p = h_limits(a, a, Some(j)).plan(2.0 * j).unwrap();
    let q = p.stretched_to(4.0 * k);
    (
        (h_state(q.state_at(0.5 * k).unwrap()), h_state(q.state_at(3.25 * k).unwrap()), q.duration()),
        {
            let f = |s: ProfileState<f64>| [s.position, s.velocity / k, s.acceleration / (k * k), s.jerk / (k * k * k)];
            (f(p.state_at(0.5).unwrap()), f(p.state_at(3.25).unwrap()), 4.0 * k)
        },
    )
}
pub fn stretch_refuses(a: f64, k: f64) -> bool {
    let a = a * a + 0.01;
    assume(k <= 3.9);
    h_root(2.0 * a);
    let p = h_limits(2.0 * a, a, None).plan(4.0 * a).unwrap();
    let z = h_limits(2.0 * a, a, None).plan(0.0).unwrap();
    p.stretched_to(k) == p && p.stretched_to(f64::NAN) == p && p.stretched_to(f64::INFINITY) == p && z.stretched_to(2.0) == z
}
/// axes moved together start and stop together, each along its own move
pub fn synchronized(a: f64, t: f64) -> ((f64, [f64; 2], [f64; 2], [f64; 2]), (f64, [f64; 2], [f64; 2], [f64; 2])) {
    let a = a * a + 0.01;
    h_root(2.0 * a);
    let p = h_limits(2.0 * a, a, None).plan(4.0 * a).unwrap();
    let q = h_limits(1.0, 1.0, None).plan(-7.0).unwrap();
    let s = SynchronizedProfile::from_profiles([p, q]);
    assume(t < 0.99 || (t > 1.01 && t < 3.99) || (t > 4.01 && t < 6.99) || (t > 7.01 && t < 7.99) || t > 8.01);
    let x = s.state_at(t).unwrap();
    let (u, w) = (p.stretched_to(8.0).state_at(t).unwrap(), q.state_at(t).unwrap());
    (
        (s.duration(), x.position.into_array(), x.velocity.into_array(), x.acceleration.into_array()),
        (8.0, [u.position, w.position], [u.velocity, w.velocity], [u.acceleration, w.acceleration]),
    )
}
pub fn synchronized_over(a: f64, k: f64) -> ((f64, f64, f64), (f64, f64, f64)) {
    let a = a * a + 0.01;
    assume(k > 0.0);
    h_root(2.0 * a);
    let p = h_limits(2.0 * a, a, None).plan(4.0 * a).unwrap();
    let q = h_limits(1.0, 1.0, None).plan(-7.0).unwrap();
    let s = SynchronizedProfile::try_from_profiles_over([p, q], k).unwrap();
    let d = if k > 8.0 { k } else { 8.0 };
    ((s.duration(), s.axis(0).unwrap().duration(), s.axis(1).unwrap().duration()), (d, d, d))
}
pub fn synchronized_refuses(k: f64) -> bool {
    let q = h_limits(1.0, 1.0, None).plan(-7.0).unwrap();
    let k = -(k * k);
    let t = |k: f64| SynchronizedProfile::try_from_profiles_over([q, q], k).err() == Some(MotionError::DurationNotPositive);
    t(k) && t(0.0) && t(f64::NAN) && t(f64::INFINITY) && SynchronizedProfile::from_profiles([q, q]).axis(2).is_none()
}

// ---- polylines ----
type P2 = [f64; 2];
fn h_path(p: &[P2; 3]) -> PolylinePath<4, 2, f64> {
    PolylinePath::try_from_points(&[Vector::new(p[0]), Vector::new(p[1]), Vector::new(p[2])]).unwrap()
}
fn h_norm(x: P2) -> f64 {
    (x[0] * x[0] + x[1] * x[1]).sqrt()
}
fn h_sub(a: P2, b: P2) -> P2 {
    [a[0] - b[0], a[1] - b[1]]
}
/// nearest point of a segment
fn h_near(a: P2, b: P2, q: P2) -> (P2, f64) {
    let d = h_sub(b, a);
    let e = h_sub(q, a);
    let t = (e[0] * d[0] + e[1] * d[1]) / (d[0] * d[0] + d[1] * d[1]);
    let t = if t < 0.0 { 0.0 } else if t > 1.0 { 1.0 } else { t };
    ([a[0] + t * d[0], a[1] + t * d[1]], t)
}
pub fn path_lengths(p: [P2; 3]) -> ((f64, [P2; 3], bool), (f64, [P2; 3], bool)) {
    let w = h_path(&p);
    let mut v = PolylinePath::<4, 2, f64>::new();
    let empty = v.is_empty() && v.total_arc_length() == 0.0;
    for k in 0..3 {
        v.push(Vector::new(p[k])).unwrap();
    }
    let s = w.waypoints();
    ((w.total_arc_length(), [s[0].into_array(), s[1].into_array(), s[2].into_array()], empty && v == w && w.len() == 3), (h_norm(h_sub(p[1], p[0])) + h_norm(h_sub(p[2], p[1])), p, true))
}
pub fn path_closest_segment(a: P2, b: P2, q: P2) -> ((P2, f64, f64, bool), (P2, f64, f64, bool)) {
    let l = h_norm(h_sub(b, a));
    assume(l > 0.01 && (b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1]) > 0.0);
    let w = PolylinePath::<2, 2, f64>::try_from_points(&[Vector::new(a), Vector::new(b)]).unwrap();
    let c = w.closest_point(Vector::new(q)).unwrap();
    let (n, t) = h_near(a, b, q);
    ((c.point().into_array(), c.arc_length(), c.distance(), c.segment_index() == 0), (n, l * t, h_norm(h_sub(q, n)), true))
}
/// the nearest of all segments, the first of them when two are as near
pub fn path_closest(q: P2) -> ((P2, f64, f64, bool), (P2, f64, f64, bool)) {
    let p = [[0.0, 0.0], [4.0, 0.0], [4.0, 3.0]];
    let c = h_path(&p).closest_point(Vector::new(q)).unwrap();
    let (m, s) = h_near(p[0], p[1], q);
    let (n, t) = h_near(p[1], p[2], q);
    let (x, y) = (h_norm(h_sub(q, m)), h_norm(h_sub(q, n)));
    let k = y < x;
    ((c.point().into_array(), c.arc_length(), c.distance(), (c.segment_index() == 1) == k), if k { (n, 4.0 + 3.0 * t, y, true) } else { (m, 4.0 * s, x, true) })
}
/// repeated points make segments of no length
pub fn path_closest_repeated(q: P2) -> ((P2, f64, f64), (P2, f64, f64)) {
    let p = [[1.0, 2.0], [1.0, 2.0], [1.0, 5.0]];
    let c = h_path(&p).closest_point(Vector::new(q)).unwrap();
    let (n, t) = h_near(p[1], p[2], q);
    assume(t > 0.0);
    let d = h_norm(h_sub(q, n));
    assume(d < h_norm(h_sub(q, p[0])));
    ((c.point().into_array(), c.arc_length(), c.distance()), (n, 3.0 * t, d))
}
pub fn path_single(a: P2, q: P2, s: f64) -> ((P2, f64, f64, P2), (P2, f64, f64, P2)) {
    let w = PolylinePath::<2, 2, f64>::try_from_points(&[Vector::new(a)]).unwrap();
    let c = w.closest_point(Vector::new(q)).unwrap();
    ((c.point().into_array(), c.arc_length(), c.distance(), w.lookahead_point(s, 1.0).unwrap().into_array()), (a, 0.0, h_norm(h_sub(q, a)), a))
}
pub fn path_refuses(a: P2) -> bool {
    let e = PolylinePath::<2, 2, f64>::new();
    let v = Vector::new(a);
    let mut f = PolylinePath::<2, 2, f64>::try_from_points(&[v, v]).unwrap();
    let g = f;
    let mut h = PolylinePath::<2, 2, f64>::try_from_points(&[v]).unwrap();
    let k = h;
    e.closest_point(v).err() == Some(MotionError::PathTooShort)
        && e.lookahead_point(0.0, 1.0).err() == Some(MotionError::PathTooShort)
        && PolylinePath::<2, 2, f64>::try_from_points(&[v, v, v]).err() == Some(MotionError::CapacityExceeded)
        && PolylinePath::<2, 2, f64>::try_from_points(&[v, Vector::new([f64::NAN, 0.0])]).err() == Some(MotionError::NonFinite)
        && f.push(v) == Err(MotionError::CapacityExceeded)
        && f == g
        && h.push(Vector::new([0.0, f64::INFINITY])) == Err(MotionError::NonFinite)
        && h == k
}
fn h_along(p: &[P2; 3], s: f64) -> P2 {
    // legs of four and three
    if s < 4.0 {
        let t = s / 4.0;
        [p[0][0] + t * (p[1][0] - p[0][0]), p[0][1] + t * (p[1][1] - p[0][1])]
    } else {
        let t = (s - 4.0) / 3.0;
        [p[1][0] + t * (p[2][0] - p[1][0]), p[1][1] + t * (p[2][1] - p[1][1])]
    }
}
pub fn path_lookahead(s: f64, l: f64) -> (P2, P2) {
    let p = [[1.0, 2.0], [5.0, 2.0], [5.0, -1.0]];
    let t = s + l;
    assume(t >= 0.0 && (t < 3.999 || t > 4.001));
    (h_path(&p).lookahead_point(s, l).unwrap().into_array(), if t >= 7.0 { p[2] } else { h_along(&p, t) })
}
pub fn path_loops() -> ([P2; 5], [P2; 5]) {
    let p = [[1.0, 2.0], [5.0, 2.0], [5.0, -1.0]];
    let w = h_path(&p).with_end_of_path(EndOfPath::Loop);
    let at = |s: f64, l: f64| w.lookahead_point(s, l).unwrap().into_array();
    ([at(6.0, 2.5), at(1.0, 1.0), at(20.0, 6.0), at(-1.0, 0.5), at(6.0, 0.5)], [h_along(&p, 1.5), h_along(&p, 2.0), h_along(&p, 5.0), h_along(&p, 6.5), h_along(&p, 6.5)])
}
pub fn path_loops_nowhere(a: P2, s: f64) -> (P2, P2) {
    let v = Vector::new(a);
    (PolylinePath::<4, 2, f64>::try_from_points(&[v, v, v]).unwrap().with_end_of_path(EndOfPath::Loop).lookahead_point(s, 1.0).unwrap().into_array(), a)
}

// ---- minimum snap ----
fn h_ends(v: &[[f64; 3]; 2]) -> MinimumSnapPlanner<3, 6, 1, f64> {
    let b = |v: &[f64; 3]| BoundaryDerivatives { velocity: Vector::new([v[0]]), acceleration: Vector::new([v[1]]), jerk: Vector::new([v[2]]) };
    MinimumSnapPlanner::new().with_start(b(&v[0])).with_end(b(&v[1]))
}
fn h_deriv(c: &[f64; 8], t: f64, s: f64) -> [f64; 8] {
    let mut c = *c;
    let mut out = [0.0; 8];
    let mut w = 1.0;
    for k in 0..8 {
        let mut x = 0.0;
        for i in (0..8).rev() {
            x = x * t + c[i];
        }
        out[k] = x / w;
        for i in 0..7 {
            c[i] = (i + 1) as f64 * c[i + 1];
        }
        c[7] = 0.0;
        w *= s;
    }
    out
}
/// a single segment meets both ends in position, velocity, acceleration and jerk
pub fn snap_single(p: [f64; 2], e: [[f64; 3]; 2]) -> (([f64; 4], [f64; 4], f64), ([f64; 4], [f64; 4], f64)) {
    let t = 2.5;
    let c = h_ends(&e).plan(&[Vector::new([p[0]]), Vector::new([p[1]])], &[t]).unwrap();
    let k = *c.piece_polynomial(0, 0).unwrap().coefficients();
    let (a, b) = (h_deriv(&k, 0.0, t), h_deriv(&k, 1.0, t));
    (([a[0], a[1], a[2], a[3]], [b[0], b[1], b[2], b[3]], c.total_span()), ([p[0], e[0][0], e[0][1], e[0][2]], [p[1], e[1][0], e[1][1], e[1][2]], t))
}
/// through the waypoints, six times smooth at each of them, which is what least snap demands
pub fn snap_two(p: [f64; 3], e: [[f64; 3]; 2]) -> (([f64; 4], [f64; 4], [f64; 7]), ([f64; 4], [f64; 4], [f64; 7])) {
    let s = [2.0, 0.5];
    let c = h_ends(&e).plan(&[Vector::new([p[0]]), Vector::new([p[1]]), Vector::new([p[2]])], &s).unwrap();
    let k = [0, 1].map(|i| *c.piece_polynomial(i, 0).unwrap().coefficients());
    let (a, m) = (h_deriv(&k[0], 0.0, s[0]), h_deriv(&k[0], 1.0, s[0]));
    let (n, b) = (h_deriv(&k[1], 0.0, s[1]), h_deriv(&k[1], 1.0, s[1]));
    (
        ([a[0], a[1], a[2], a[3]], [b[0], b[1], b[2], b[3]], [m[0], m[1], m[2], m[3], m[4], m[5], m[6]]),
        ([p[0], e[0][0], e[0][1], e[0][2]], [p[2], e[1][0], e[1][1], e[1][2]], [p[1], n[1], n[2], n[3], n[4], n[5], n[6]]),
    )
}
pub fn snap_three(p: [f64; 4], e: [[f64; 3]; 2]) -> (([f64; 2], [f64; 7], [f64; 7]), ([f64; 2], [f64; 7], [f64; 7])) {
    let s = [1.0, 2.0, 1.5];
    let c = h_ends(&e).plan(&[Vector::new([p[0]]), Vector::new([p[1]]), Vector::new([p[2]]), Vector::new([p[3]])], &s).unwrap();
    let k = [0, 1, 2].map(|i| *c.piece_polynomial(i, 0).unwrap().coefficients());
    let l = [0, 1, 2].map(|i| h_deriv(&k[i], 0.0, s[i]));
    let r = [0, 1, 2].map(|i| h_deriv(&k[i], 1.0, s[i]));
    let f = |a: &[f64; 8]| [a[0], a[1], a[2], a[3], a[4], a[5], a[6]];
    let (x, y) = (f(&l[1]), f(&l[2]));
    (([l[0][0], r[2][0]], f(&r[0]), f(&r[1])), ([p[0], p[3]], [p[1], x[1], x[2], x[3], x[4], x[5], x[6]], [p[2], y[1], y[2], y[3], y[4], y[5], y[6]]))
}
/// axes do not mix
pub fn snap_axes(p: [[f64; 2]; 3]) -> ([f64; 8], [f64; 8]) {
    let w = p.map(|x| Vector::new(x));
    let c = MinimumSnapPlanner::<2, 3, 2, f64>::new().plan(&w, &[1.0, 2.0]).unwrap();
    let d = MinimumSnapPlanner::<2, 3, 1, f64>::new().plan(&p.map(|x| Vector::new([x[1]])), &[1.0, 2.0]).unwrap();
    (*c.piece_polynomial(1, 1).unwrap().coefficients(), *d.piece_polynomial(1, 0).unwrap().coefficients())
}
pub fn snap_refuses(a: f64, b: f64) -> bool {
    let (x, y) = (Vector::new([a]), Vector::new([b]));
    let p = MinimumSnapPlanner::<2, 3, 1, f64>::new();
    let z = MinimumSnapPlanner::<2, 0, 1, f64>::new();
    let n = BoundaryDerivatives { velocity: Vector::new([f64::NAN]), ..BoundaryDerivatives::default() };
    p.plan(&[x], &[]).err() == Some(MotionError::PathTooShort)
        && p.plan(&[x, y, x, y], &[1.0, 1.0, 1.0]).err() == Some(MotionError::CapacityExceeded)
        && p.plan(&[x, y], &[1.0, 1.0]).err() == Some(MotionError::SegmentCountMismatch)
        && p.plan(&[x, y, x], &[1.0]).err() == Some(MotionError::SegmentCountMismatch)
        && p.plan(&[x, y], &[0.0]).err() == Some(MotionError::DurationNotPositive)
        && p.plan(&[x, y], &[f64::NAN]).err() == Some(MotionError::DurationNotPositive)
        && p.plan(&[x, Vector::new([f64::NAN])], &[1.0]).err() == Some(MotionError::NonFinite)
        && p.with_start(n).plan(&[x, y], &[1.0]).err() == Some(MotionError::NonFinite)
        && p.with_end(n).plan(&[x, y], &[1.0]).err() == Some(MotionError::NonFinite)
        && z.plan(&[x, y, x], &[1.0, 1.0]).err() == Some(MotionError::WorkspaceTooSmall)
}
pub fn speeds(p: [P2; 3], v: f64) -> ([f64; 2], [f64; 2]) {
    let v = v * v + 0.01;
    let (a, b) = (h_norm(h_sub(p[1], p[0])), h_norm(h_sub(p[2], p[1])));
    assume(a > 0.01 && b > 0.01);
    let mut d = [0.0; 2];
    durations_from_average_speed(&p.map(|x| Vector::new(x)), v, &mut d).unwrap();
    (d, [a / v, b / v])
}
pub fn speeds_refuse(a: P2, v: f64) -> bool {
    let x = Vector::new(a);
    let v = v * v + 0.01;
    let mut d = [0.0; 1];
    durations_from_average_speed(&[x], v, &mut d) == Err(MotionError::PathTooShort)
        && durations_from_average_speed(&[x, x, x], v, &mut d) == Err(MotionError::SegmentCountMismatch)
        && durations_from_average_speed(&[x, x], v, &mut d) == Err(MotionError::DurationNotPositive)
        && durations_from_average_speed(&[x, x], -v, &mut d) == Err(MotionError::DurationNotPositive)
        && durations_from_average_speed(&[x, x], f64::NAN, &mut d) == Err(MotionError::DurationNotPositive)
        && durations_from_average_speed(&[x, Vector::new([f64::NAN, 0.0])], v, &mut d) == Err(MotionError::NonFinite)
}
